// Instantiates the members of the library's class templates that the library itself does not use.
#include "fuzzylite/Headers.h"

template class fuzzylite::CloningFactory<fuzzylite::Function::Element*>;
template class fuzzylite::ConstructionFactory<fuzzylite::TNorm*>;
template class fuzzylite::ConstructionFactory<fuzzylite::SNorm*>;
template class fuzzylite::ConstructionFactory<fuzzylite::Hedge*>;
template class fuzzylite::ConstructionFactory<fuzzylite::Activation*>;
template class fuzzylite::ConstructionFactory<fuzzylite::Defuzzifier*>;
template class fuzzylite::ConstructionFactory<fuzzylite::Term*>;

namespace fl_instances {
    void create(const fuzzylite::Engine* engine) {
        fuzzylite::Discrete::create("", 4, 1.0, 2.0, 3.0, 4.0);
        fuzzylite::Linear::create("", engine, 1.0);
    }
}
