# Writes properties.jsonl (kept as a script so that every line is valid JSON).
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "One evaluation pass: clear, activate every enabled block, defuzzify every output",
 "Every time an engine is processed it first discards all conclusions left in every output variable by earlier passes, then activates each enabled rule block exactly once in order and no disabled one, and only then defuzzifies every output variable. Restarting an engine sets every input value to NaN and clears every output variable (no conclusions, no value, no previous value).",
 ["inputs", "configurations", "histories"], "every engine (any number of inputs, outputs and rule blocks, any enabled flags) and every sequence of passes",
 "Tests process a handful of example engines with one rule block and all components enabled; the rule quantifies over every structure, flag combination and history.",
 ["src/Engine.cpp", "src/rule/RuleBlock.cpp", "src/variable/OutputVariable.cpp"],
 [("process", "Engine::process"), ("restart", "Engine::restart"), ("clear", "OutputVariable::clear"), ("activate", "RuleBlock::activate")],
 ["fuzzy outputs, output values after processing"])

prop("C02", "A rule contributes exactly when loaded, enabled and activated above zero",
 "A rule's activation degree is its weight times the degree of truth of its antecedent, and evaluating a rule that is not loaded raises an exception. Triggering a deactivated rule adds its conclusions to the output variables if and only if the rule is enabled and its activation degree is greater than zero, and the rule reports being triggered in exactly that case. Deactivating a rule resets its activation degree to zero and its triggered mark.",
 ["inputs", "configurations", "histories"], "every rule, weight, antecedent degree (including 0, NaN), enabled flag and previous state",
 "Tests check a few weights and always-enabled loaded rules; the combinations of flags, degree boundaries and previous state are not enumerated.",
 ["src/rule/Rule.cpp"],
 [("activation", "Rule::activateWith"), ("trigger", "Rule::trigger"), ("deactivate", "Rule::deactivate")])

prop("C03", "Antecedent truth: propositions, hedges, connectives evaluated as documented",
 "The truth of a proposition is the membership of the input value in the named term (or the aggregated activation of that term when the variable is an output), modified by every hedge from the one nearest the term outwards; a disabled variable makes its proposition 0, and the hedge `any` needs no term. `and` combines both sides with the conjunction operator and `or` with the disjunction operator, for any nesting. Evaluating an unloaded antecedent, or a connective whose operator is missing, raises an exception.",
 ["inputs", "programs", "configurations"], "every antecedent expression tree, hedge chain, input value and operator configuration",
 "Tests evaluate specific example rules; arbitrary nesting, hedge order, output variables in antecedents and missing operators are not covered.",
 ["src/rule/Antecedent.cpp", "src/rule/Expression.cpp", "src/term/Aggregated.cpp"],
 [("evaluation", "Antecedent::activationDegree")])

prop("C04", "Each conclusion of a triggered rule adds one activated term with its own degree",
 "When a rule with activation degree d is triggered, every conclusion about an enabled output variable adds exactly one activated term to that variable: the named term, with degree d modified by that conclusion's own hedges (nearest the term first) and the block's implication operator. Conclusions about disabled variables add nothing, hedges of one conclusion never affect another conclusion, and triggering an unloaded consequent raises an exception.",
 ["inputs", "programs", "configurations"], "every consequent with any number of conclusions and hedges, every degree",
 "No existing test exercises consequents with several conclusions carrying different hedges or disabled outputs.",
 ["src/rule/Consequent.cpp", "src/term/Aggregated.cpp"],
 [("modify", "Consequent::modify"), ("addTerm", "Aggregated::addTerm")])

prop("C05", "Activation methods trigger exactly the rules they document",
 "For every rule block, each activation method first deactivates every rule, never evaluates unloaded rules, computes degrees with the block's operators and triggers with the block's implication: General triggers every rule; First and Last trigger the first/last n rules (in insertion order, respectively reversed) whose degree is greater than zero and at least the threshold; Highest and Lowest trigger the n rules with the highest/lowest positive degrees; Proportional triggers the positive rules with degrees divided by their sum; Threshold triggers the rules whose degree satisfies the configured comparison.",
 ["inputs", "configurations", "histories"], "every rule block (any number of rules, degrees, previous rule state), every method and parameter setting",
 "Tests use one engine with a few rules and check totals for a few parameters; loaded/unloaded mixes, stale state and degree ties are not enumerated.",
 ["src/activation/General.cpp", "src/activation/First.cpp", "src/activation/Last.cpp", "src/activation/Highest.cpp", "src/activation/Lowest.cpp", "src/activation/Proportional.cpp", "src/activation/Threshold.cpp"],
 [("activate", "Activation::activate overriders")])

prop("C06", "Output value cascade: defuzzified value, then previous value, then default",
 "Defuzzifying an enabled output variable sets its value to the defuzzified result of its fuzzy output over its range; if that is NaN, to the stored previous value when previous values are locked; and if it is still NaN, to the default value (always subject to the range lock). The value held just before the defuzzification becomes the new previous value. A disabled output variable is left untouched, a missing defuzzifier on an enabled variable raises an exception and changes nothing, and clearing an output variable empties its fuzzy output and makes both value and previous value NaN.",
 ["inputs", "configurations", "histories"], "every sequence of defuzzifications, lock flags, defaults and fuzzy outputs",
 "Tests cover single defuzzifications of a few configurations, not every combination of locks, NaN results and histories.",
 ["src/variable/OutputVariable.cpp", "src/variable/Variable.cpp"],
 [("defuzzify", "OutputVariable::defuzzify"), ("clear", "OutputVariable::clear")])

prop("C07", "Variables respect their range lock and report memberships truthfully",
 "Setting a value stores it unchanged, or clamped to the variable's minimum and maximum when the range lock is on. Fuzzifying a value reports one activation per term, in term order, whose degree is that term's membership; the highest membership is a term whose positive membership is not exceeded by any other and none if all are zero or NaN; the maximal activations are exactly all terms tied at that highest positive membership.",
 ["inputs", "configurations"], "every value (including NaN, infinities), range, lock flag and set of terms",
 "Tests check a few terms and values; clamping, ties, NaN memberships and empty term lists over all values are not covered.",
 ["src/variable/Variable.cpp", "fuzzylite/variable/Variable.h"],
 [("setValue", "Variable::setValue"), ("activations", "Variable::activations"), ("highest", "Variable::highestMembership"), ("max", "Variable::maxActivations")])

prop("C08", "Aggregated fuzzy outputs combine every activated term with the aggregation",
 "The membership of an aggregated fuzzy output is the aggregation operator folded from 0 over every activated term's implied membership (implication of degree and term membership), 0 when empty, NaN for NaN, and an exception when a needed operator is missing. The activation degree reported for a term aggregates the degrees of all its activations (with sum when no operator is set); grouping yields one activation per distinct term with that degree; highest and maximal activated terms are selected from those.",
 ["inputs", "configurations"], "every list of activated terms (with repetitions), operator and abscissa",
 "Tests check a few fixed aggregations; repeated terms, absent operators and arbitrary degrees are not enumerated.",
 ["src/term/Aggregated.cpp", "src/term/Activated.cpp"],
 [("membership", "Aggregated::membership, Activated::membership"), ("degree", "Aggregated::activationDegree"), ("grouping", "Aggregated::groupedTerms")])

prop("C09", "Membership functions follow their documented curves within [0, height]",
 "For every well-formed parameter setting and every x, the membership of each parametric term equals its documented curve times its height, never leaves [0, height], reaches the height where the curve documents it and is 0 where documented, including at and beyond the breakpoints, in both directions of directed terms and for infinite shoulders.",
 ["inputs", "configurations"], "all x and all parameters of Bell, Binary, Concave, Cosine, Discrete, Gaussian, GaussianProduct, PiShape, Ramp, Rectangle, Sigmoid, SigmoidDifference, SigmoidProduct, Spike, SShape, Trapezoid, Triangle, ZShape, Constant and Linear",
 "Tests sample one or two parameter sets per term at a few abscissas; the formulae are claimed for the continuum of x and parameters.",
 ["src/term/Bell.cpp", "src/term/Binary.cpp", "src/term/Concave.cpp", "src/term/Cosine.cpp", "src/term/Discrete.cpp", "src/term/Gaussian.cpp", "src/term/GaussianProduct.cpp", "src/term/PiShape.cpp", "src/term/Ramp.cpp", "src/term/Rectangle.cpp", "src/term/Sigmoid.cpp", "src/term/SigmoidDifference.cpp", "src/term/SigmoidProduct.cpp", "src/term/Spike.cpp", "src/term/SShape.cpp", "src/term/Trapezoid.cpp", "src/term/Triangle.cpp", "src/term/ZShape.cpp", "src/term/Constant.cpp", "src/term/Linear.cpp"],
 [("membership", "Term::membership overriders")])

prop("C10", "NaN is never silently turned into a number by fuzzification",
 "Every parametric membership function (all except Constant, Linear and Function, which ignore or freely use their argument), the aggregated output and the activated term return NaN for a NaN argument. Integral defuzzifiers return NaN when a bound of the range is not finite, and weighted defuzzifiers return NaN for an empty fuzzy output.",
 ["inputs", "configurations"], "every term class, parameter setting and operator, NaN argument; every defuzzifier",
 "Tests check NaN for one parameter set per term; the guard must exist on every path of every implementation.",
 ["src/term", "src/defuzzifier"],
 [("NaN guards", "Term::membership and Defuzzifier::defuzzify overriders")])

prop("C11", "T-norms compute their documented formula and the t-norm axioms",
 "On [0,1] every t-norm equals its documented formula: it is symmetric, has 1 as neutral element and 0 as annihilator, stays in [0,1] and never exceeds the minimum of its arguments. This holds for AlgebraicProduct, BoundedDifference, DrasticProduct, EinsteinProduct, HamacherProduct, Minimum and NilpotentMinimum.",
 ["inputs"], "all pairs in [0,1]x[0,1]",
 "Tests sample finitely many pairs; the axioms quantify over the unit square.",
 ["src/norm/t"], [("compute", "TNorm::compute overriders")])

prop("C12", "S-norms compute their documented formula and the s-norm axioms",
 "On [0,1] every s-norm equals its documented formula: it is symmetric, has 0 as neutral element and is never below the maximum of its arguments; all but UnboundedSum stay in [0,1]. This holds for AlgebraicSum, BoundedSum, DrasticSum, EinsteinSum, HamacherSum, Maximum, NilpotentMaximum, NormalizedSum and UnboundedSum.",
 ["inputs"], "all pairs in [0,1]x[0,1]",
 "Tests sample finitely many pairs; the axioms quantify over the unit square.",
 ["src/norm/s"], [("compute", "SNorm::compute overriders")])

prop("C13", "Hedges compute their documented transformation of membership degrees",
 "On [0,1] each hedge equals its documented transformation: any is 1, not is the complement, very the square, somewhat the square root, extremely the contrast-intensification by squares around 0.5, seldom the corresponding one by square roots; results stay in [0,1], are monotone (not: antitone) and map the end points as documented.",
 ["inputs"], "all degrees in [0,1]",
 "Tests sample finitely many degrees.",
 ["src/hedge"], [("hedge", "Hedge::hedge overriders")])

prop("C14", "Monotonic terms, and only those, invert their membership for Tsukamoto",
 "A (non-composite) term declares itself monotonic exactly when it offers the Tsukamoto inverse; for those terms (Concave, Ramp, Sigmoid, SShape, ZShape) the inverse of a degree in the open interval between 0 and the height is an abscissa whose membership is that degree, in both directions of directed terms. All other terms report that the inverse is unsupported by raising an exception.",
 ["inputs", "configurations"], "all degrees and parameters of the monotonic terms; all term classes",
 "Tests invert a few sampled degrees for a few parameters.",
 ["src/term/Concave.cpp", "src/term/Ramp.cpp", "src/term/Sigmoid.cpp", "src/term/SShape.cpp", "src/term/ZShape.cpp", "src/term/Term.cpp"],
 [("inverse", "Term::tsukamoto overriders"), ("flag", "Term::isMonotonic overriders")])

prop("C15", "Integral defuzzifiers return their documented statistic of the sampled term",
 "With resolution r over [min, max] the midpoints of r equal slices are sampled: Centroid returns the membership-weighted mean of the midpoints, Bisector the point that splits the area in halves, SmallestOfMaximum, LargestOfMaximum and MeanOfMaximum the first, last and mean midpoint of maximal membership. A returned number lies within [min, max].",
 ["inputs", "configurations"], "every term, range and resolution",
 "Tests defuzzify a few fixed shapes at high resolution, which hides off-by-half-slice, first/last and tie errors.",
 ["src/defuzzifier/Bisector.cpp", "src/defuzzifier/Centroid.cpp", "src/defuzzifier/LargestOfMaximum.cpp", "src/defuzzifier/MeanOfMaximum.cpp", "src/defuzzifier/SmallestOfMaximum.cpp"],
 [("defuzzify", "IntegralDefuzzifier::defuzzify overriders")])

prop("C16", "Weighted defuzzifiers compute the weighted average or sum of term values",
 "WeightedAverage returns the sum of weight times value divided by the sum of weights and WeightedSum the sum of weight times value, over all activated terms (grouped per term), where the weight is the aggregated activation degree and the value is the term evaluated at the degree for Takagi-Sugeno, or its Tsukamoto inverse for Tsukamoto. In automatic mode the type is inferred per term: Constant, Linear and Function are Takagi-Sugeno and monotonic terms Tsukamoto; a term with no such type and a fuzzy output that is not aggregated raise an exception.",
 ["inputs", "configurations"], "every list of activated terms, degrees, aggregation operator and defuzzifier type",
 "Tests cover a few fixed lists.",
 ["src/defuzzifier/WeightedAverage.cpp", "src/defuzzifier/WeightedSum.cpp", "src/defuzzifier/WeightedDefuzzifier.cpp"],
 [("defuzzify", "WeightedDefuzzifier::defuzzify overriders"), ("type", "WeightedDefuzzifier::inferType")])

prop("C17", "Formulas evaluate with the documented operators, precedence and functions",
 "Every registered operator and function name computes the mathematical operation it names, with documented arity, precedence (! ~ over ^ over * / % over + - over and over or) and associativity, so a formula's value equals the conventional reading of its text. Unary and binary operands are never swapped, variables take the values of the engine's variables by name and `x` the argument, and an unknown variable, wrong arity or mismatched parentheses raise an exception rather than misbehave. The tree of a formula is written in prefix, infix and postfix order with every part.",
 ["inputs", "programs"], "every formula over the registered vocabulary, every variable assignment",
 "Tests evaluate a few formulas; the table of some 40 names and all operator pairs are not enumerated.",
 ["src/factory/FunctionFactory.cpp", "src/term/Function.cpp", "fuzzylite/Operation.h"],
 [("registry", "FunctionFactory::registerOperators/registerFunctions"), ("parser", "Function::toPostfix, Function::parse"), ("evaluation", "Function::Node::evaluate")])

prop("C18", "Rule text is parsed by the documented grammar or rejected with an exception",
 "A rule `if A then C [with w]` loads into exactly the expression it spells: `and` binds tighter than `or`, parentheses override, hedges keep their order, variables and terms are resolved by name, weight w applies. Text that violates the grammar or names unknown variables or terms raises an exception, leaves the rule not loaded and never invokes undefined behaviour; unloading a rule makes it not loaded. A loaded antecedent or consequent is written back with every part in the order asked for.",
 ["inputs", "programs"], "every rule text over the engine's vocabulary, well-formed or not",
 "Tests parse a few well-formed example rules; malformed texts are hardly covered.",
 ["src/rule/Rule.cpp", "src/rule/Antecedent.cpp", "src/rule/Consequent.cpp", "src/term/Function.cpp"],
 [("parsers", "Rule::load, Antecedent::load, Consequent::load")])

prop("C19", "Copies, clones and assignments reproduce every attribute",
 "A copy-constructed, cloned or copy-assigned term, variable, rule, rule block, engine, operator, activation, defuzzifier, factory, exporter or importer carries every attribute of its source (including enabled flags, weights, locks, texts, ranges and operators), has the same dynamic class and keeps all contained components in order; assignment leaves nothing of the target's previous content and self-assignment changes nothing.",
 ["inputs", "configurations", "histories"], "every class with value semantics, every attribute value, every previous content of the assignment target",
 "Tests copy a few engines and compare exported text, which omits runtime flags and never assigns onto populated targets.",
 ["src/Engine.cpp", "src/variable", "src/rule", "src/term", "src/factory/FactoryManager.cpp", "fuzzylite/factory/CloningFactory.h", "fuzzylite/factory/ConstructionFactory.h"],
 [("copy", "copy constructors, operator=, copyFrom, clone overriders")])

prop("C20", "Components are owned once: copies share nothing, destruction frees everything",
 "A copy never shares mutable components with its source, and terms and rules inside a copied engine refer to that engine's own variables; changing or destroying either leaves the other valid. Destroying, clearing, reassigning or replacing a component releases everything it owned exactly once, without leaks, double releases or dangling references.",
 ["inputs", "configurations", "histories"], "every composition of engine components and every sequence of copy, replace, clear, move and destroy",
 "Tests do not run under leak checkers and hardly destroy originals before using copies.",
 ["src/Engine.cpp", "src/variable", "src/rule", "src/term", "src/factory", "fuzzylite/factory/CloningFactory.h"],
 [("ownership", "destructors, clear(), unique_ptr members, updateReferences")])

prop("C21", "Failed loading or importing leaks nothing and leaves no half-built state",
 "When loading a rule or a formula, configuring an engine or importing a text fails with an exception, everything allocated for the failed operation is released and no dangling or partially loaded component remains reachable.",
 ["inputs", "fault_sequences"], "every malformed rule, formula, component name and engine text, every point of failure",
 "Tests check that exceptions are thrown, never what happens to the memory and state.",
 ["src/rule/Antecedent.cpp", "src/rule/Consequent.cpp", "src/rule/Rule.cpp", "src/term/Function.cpp", "src/imex/FllImporter.cpp", "src/imex/FisImporter.cpp", "src/imex/FclImporter.cpp", "src/Engine.cpp"],
 [("cleanup", "catch blocks and smart pointers in load/parse/fromString")])

prop("C22", "Every component is registered under its own name and constructible by it",
 "Every concrete norm, hedge, activation method, defuzzifier and term (other than the composite Activated and Aggregated and the function-defined norms and hedges) is registered in the factory of its kind under exactly the name it reports, constructing by that name yields that class with default settings, the empty name yields none, and an unregistered name raises an exception. Names are unique, and the factory manager hands out, copies and replaces the factory of the right kind.",
 ["configurations", "programs"], "every component class and registered name",
 "Tests check the list of available names of today's classes, not that names, reported names and constructed classes agree.",
 ["src/factory", "fuzzylite/factory/ConstructionFactory.h", "fuzzylite/factory/CloningFactory.h", "src/norm", "src/hedge", "src/term", "src/activation", "src/defuzzifier"],
 [("registration", "factory constructors"), ("names", "className()/name() overriders"), ("constructors", "static constructor() functions")])

prop("C23", "Component parameters are written and read back in the same order and meaning",
 "For every term and activation method, configuring a fresh instance from the parameters text of another makes every parameter (and the height, which is written when it is not 1) equal; each constructor argument reaches the attribute of that name; and a text with too few parameters raises an exception.",
 ["inputs", "configurations"], "every term and activation class and every parameter value",
 "Tests round-trip a single default instance per class, where several parameters coincide.",
 ["src/term", "src/activation"],
 [("write", "parameters()"), ("read", "configure()"), ("construct", "constructors")])

prop("C24", "FLL export and import agree on every attribute of an engine",
 "Exporting an engine to the FuzzyLite Language and importing the text gives an engine with the same variables, terms, ranges, flags, locks, operators, defuzzifiers and their settings, rules and blocks in the same order, whatever separator is configured on both sides (for texts without line breaks, comment marks or the separator, valid names, and formulas over variables declared before them; a block without activation method comes back with General). The order of the lines of a component does not matter and omitted lines mean their defaults. Unknown keys and malformed lines raise an exception instead of being dropped.",
 ["inputs", "configurations", "programs"], "every engine expressible in FLL; every text",
 "Tests round-trip the bundled examples, which leave most attributes at one fixed value.",
 ["src/imex/FllExporter.cpp", "src/imex/FllImporter.cpp"],
 [("write", "FllExporter::toString overloads"), ("read", "FllImporter::process*")])

prop("C25", "FIS export and import agree on the vocabulary of the Matlab format",
 "Every operator, defuzzifier, term class, parameter order, rule index, hedge and connective code that the FIS exporter writes is read back by the FIS importer as the same component with the same parameters, for systems with one rule block and the same operators for all outputs (the format has no place for descriptions, flags, locks, defaults, heights and resolutions); pairs of negations cancel; sections and the lines of a section may come in any order, optional lines (Enabled, Default, LockPrevious, LockRange) set what they say and omitted ones mean their defaults; and unknown keys or names raise an exception.",
 ["inputs", "configurations", "programs"], "every engine expressible in FIS",
 "Tests round-trip the bundled examples, which use only a few term classes and operators.",
 ["src/imex/FisExporter.cpp", "src/imex/FisImporter.cpp"],
 [("write", "FisExporter::toString overloads"), ("read", "FisImporter::translate*, createInstance")])

prop("C26", "FCL export and import agree on the vocabulary of the FCL format",
 "Every operator, defuzzifier, range, default value, term and rule that the FCL exporter writes is read back by the FCL importer as the same component with the same settings (the format has no place for descriptions and flags); the lines of a block may come in any order, optional lines (ENABLED, LOCK) set what they say and omitted ones mean their defaults; and malformed text raises an exception.",
 ["inputs", "configurations", "programs"], "every engine expressible in FCL",
 "Tests round-trip the bundled examples only.",
 ["src/imex/FclExporter.cpp", "src/imex/FclImporter.cpp"],
 [("write", "FclExporter::toString overloads"), ("read", "FclImporter::process*, parse*")])

prop("C27", "Generated C++ and Java code rebuilds every attribute of the engine",
 "The C++ and Java exporters emit, for every variable, rule block and the engine itself, one statement setting each attribute (name, description, flags, ranges, locks, operators, defaults, terms, rules) to the value the component reports, in an order that makes the program valid, adds each component to the engine once, and qualifies every emitted class consistently when a namespace prefix is requested (for engines whose names give distinct identifiers and whose texts need no escaping).",
 ["inputs", "configurations", "programs"], "every engine and exporter setting",
 "No test inspects the generated code per attribute.",
 ["src/imex/CppExporter.cpp", "src/imex/JavaExporter.cpp"],
 [("write", "CppExporter::toString, JavaExporter::toString overloads")])

prop("C28", "Exported datasets have one aligned row per evaluated input vector",
 "In an exported dataset every row and the header have the same columns in the same order (inputs then outputs, each only if selected); each row holds the input values set before, and the output values read after, exactly one evaluation of the engine. Grid exports visit every combination of the evenly spaced samples of the active inputs (from minimum to maximum) exactly once and keep inactive inputs at their value; asking for a number of values in total yields at most that many rows; a wrong number of active variables or too few values in a row to read raise an exception.",
 ["inputs", "configurations"], "every engine, flag setting, resolution, scope and set of active variables",
 "Tests compare complete dumps of a few engines with all columns selected.",
 ["src/imex/FldExporter.cpp", "fuzzylite/Operation.h"],
 [("rows", "FldExporter::write"), ("header", "FldExporter::header"), ("grid", "Operation::increment")])

prop("C29", "Every setting read back is the one that was set or constructed",
 "For every class, what a setter stores is what the corresponding getter returns and nothing else changes; constructor arguments are the initial values of the attributes they name; the fluent builders of rule blocks and aggregated terms have the same effect as the setters. An exception holds its message and everything appended to it.",
 ["inputs", "configurations", "histories"], "every settable attribute of every class and every value",
 "Tests touch a minority of the accessors, with values for which a swap would go unnoticed.",
 ["src", "fuzzylite"], [("accessors", "setX/getX/isX pairs and constructors of every class")])

prop("C30", "Named and indexed component access finds, inserts and removes exactly that one",
 "Looking up a variable, rule block or term by name returns the first component with that name or raises an exception, and the existence query agrees; access and removal by index are bounds-checked; add appends, insert places at the index, set replaces and returns the old one, remove takes out and returns exactly the requested one, and all others keep their order.",
 ["inputs", "configurations", "histories"], "every collection content, name (present, absent, duplicate) and index",
 "Tests exercise lookups of present names in small engines.",
 ["src/Engine.cpp", "src/variable/Variable.cpp", "src/rule/RuleBlock.cpp", "src/term/Aggregated.cpp", "fuzzylite/factory/CloningFactory.h", "fuzzylite/factory/ConstructionFactory.h"],
 [("collections", "get/set/insert/remove/has functions")])

prop("C31", "Readiness check reports every missing component needed to process",
 "An engine reports ready only if it has input variables, output variables and rule blocks, every output has terms, a defuzzifier and an aggregation when its defuzzifier is integral, every block has rules, a conjunction or disjunction when some rule uses `and` or `or` in its antecedent, and an implication when its rules conclude on outputs with integral defuzzifiers; otherwise it reports not ready and names what is missing. Asking changes nothing.",
 ["configurations", "programs"], "every combination of missing components",
 "Tests check one fully configured engine and a few single omissions.",
 ["src/Engine.cpp"], [("check", "Engine::isReady")])

prop("C32", "Engines are independent: evaluation uses no hidden shared mutable state",
 "Constructing, loading and evaluating engines, terms, operators, rules and exporters neither writes process-wide mutable state nor caches results across calls, other than the documented global settings and the lazily created factory manager; hence results depend only on the engine and its inputs, and separate engines can be used independently.",
 ["schedules", "histories", "inputs"], "every interleaving and history of operations on separate engines",
 "Tests run one engine at a time in one thread; hidden state shows only under interleavings or repeated use.",
 ["src", "fuzzylite"], [("effects", "all functions reachable from public API except fuzzylite::set* and FactoryManager::instance")])

prop("C33", "Queries and exports never modify the engine they look at",
 "Evaluating memberships and norms, asking for names, parameters, types and readiness, converting to text, and exporting to FLL, FIS, FCL, C++ or Java leave every attribute of the engine and its components unchanged, except that formula terms may refresh their bound variable values.",
 ["inputs", "histories"], "every engine and every read-only operation",
 "Tests do not compare the engine before and after queries.",
 ["src", "fuzzylite"], [("const", "const member functions, exporters, isReady, type, toString")])

prop("C34", "Tolerant comparisons and numeric helpers behave consistently for all values",
 "For all values, exactly one of less, equal and greater holds unless exactly one value is NaN; less-or-equal and greater-or-equal are their unions; equality means within the tolerance, equal infinities or both NaN. Minimum and maximum propagate NaN, bounding clamps into the bounds, linear rescaling maps the source end points to the target ones, and rounding, logical and arithmetic helpers compute what they name.",
 ["inputs"], "all pairs of doubles including NaN and infinities, all tolerances",
 "Tests sample a few pairs.",
 ["fuzzylite/Operation.h"], [("comparisons", "Operation::isLt/isLE/isEq/isGt/isGE"), ("helpers", "Operation::min/max/bound/scale/round/...")])

prop("C35", "Text helpers split, trim, join and convert without loss or undefined behaviour",
 "Splitting on a delimiter and joining with it restores the text, trimming removes exactly surrounding white space, replacing substitutes all (or the first) occurrences, valid names keep only alphanumeric characters, underscores and dots and are never empty; text converts to a number exactly when all of it is a number (or nan, inf, -inf), otherwise an exception or the given alternative results. No input text, including the empty one, causes undefined behaviour.",
 ["inputs"], "all texts, delimiters and patterns",
 "Tests check a few strings per helper.",
 ["fuzzylite/Operation.h"], [("text", "Operation::split/trim/join/findReplace/validName/toScalar/str")])

prop("C36", "Benchmarks feed every expected row and count each error once",
 "A benchmark run evaluates every prepared row once per repetition on a restarted engine with the row's inputs and records the outputs of that evaluation in row order; accuracy, non-finite and total error counts classify every compared value once (total is the sum of both), the mean squared error averages exactly the squared differences of the accuracy errors, values that agree (equal within the tolerance, equally infinite or both nan) are never errors, and all reported times convert between units by the documented factors.",
 ["inputs", "configurations", "histories"], "every engine, dataset, tolerance and unit",
 "Tests run the bundled examples, whose errors are zero.",
 ["src/Benchmark.cpp"], [("run", "Benchmark::run"), ("errors", "Benchmark::numberOfErrors, meanSquaredError"), ("units", "Benchmark::factorOf, convert")])

prop("C37", "The type of an engine is the documented one, and configuring sets every operator",
 "Engine::type tells what the components say, in every order and after every change: Mamdani when all outputs defuzzify by integrals, Larsen when in addition every rule block implies by the algebraic product, Takagi-Sugeno or Tsukamoto when all defuzzify by weights and all terms are constants, linear terms or functions (monotonic for Tsukamoto) and the type of the defuzzifier allows it, Inverse Tsukamoto for other weighted engines, Hybrid for other engines whose outputs all have defuzzifiers, Unknown otherwise or without outputs; with the name and a reason. Engine::configure, by names or by objects, gives every rule block and every output variable an own operator of the class given (none when none is given) and changes nothing else, without leaks.",
 ["configurations", "histories"], "every combination of defuzzifiers, terms, implications, blocks and outputs",
 "Tests ask for the type of a few examples and configure one engine.",
 ["src/Engine.cpp"], [("type", "Engine::type"), ("configure", "Engine::configure")])

prop("C38", "The command line does exactly what its options ask for",
 "Converting writes exactly the export of the imported engine between every two formats, named by options or by file extensions, to the file or the standard output, with the decimals asked for; exporting data writes exactly the dataset of the engine for the values, scope, data file, header and inputs asked for; the built-in examples are ready and written as any engine. Wrong, missing or incomplete options, unknown formats, files that cannot be read or created and texts that do not import end in failure with a message and no result. An interactive session evaluates the engine exactly when all inputs are given or on request, with the inputs typed since the last evaluation and the others kept; discarding and restarting forget the current inputs; help and quit do as they say. Benchmarking writes one row per engine in order, each with its own dataset; exporting all examples writes the export of every example.",
 ["inputs", "configurations", "histories"], "every list of arguments, file contents and sequence of keys",
 "There are no tests of the command line but of one export and import of the examples.",
 ["src/Console.cpp", "fuzzylite/Console.h"], [("process", "Console::process"), ("parse", "Console::parse"), ("interactive", "Console::interactive"), ("benchmark", "Console::benchmark(s)")])

prop("C42", "Numbers are written with the configured decimals, in every text alike",
 "A number is written in fixed notation rounded to the decimals asked for (a magnitude below one unit of the last decimal as zero without sign, nan and the infinities by name) or, in other notations, with that many digits. Without being asked, the decimals and notation configured at that moment are used by single numbers, lists, parameters, datasets and every exporter: every number of every exported text is written so, and nothing else of the text depends on them. Whatever the decimals, the rules and names of an exported engine are imported as they were.",
 ["inputs", "configurations"], "every number, number of decimals and notation, every engine exported",
 "Tests print a few numbers with three decimals.",
 ["fuzzylite/Operation.h", "src/fuzzylite.cpp", "src/imex"], [("format", "Operation::str, join"), ("configured", "fuzzylite::setDecimals, setScalarFormat"), ("exports", "*Exporter::toString, FldExporter::write")])

prop("C45", "Generated R scripts hold the engine, its data and one plot per pair of variables",
 "The R exporter writes a valid script whose texts are exactly the engine's name, description and FLL text and whose data are exactly the dataset (or the path) of the grid asked for; for every output there are two plots, over both orders of the two inputs (or the curve and its flipped form), each with the variables and colours of its own and arranged exactly once. All entry points (file, stream, number of values or dataset) give equal scripts for equal requests, and engines without input or output variables, or with the wrong variables named, are refused.",
 ["inputs", "configurations"], "every engine, pair of variables, grid and entry point",
 "There are no tests of the R exporter but its construction.",
 ["src/imex/RScriptExporter.cpp"], [("script", "RScriptExporter::writeScriptImportingDataset, writeScriptExportingDataset"), ("plots", "RScriptExporter::writeScriptPlots")])

prop("C46", "Discrete terms keep every point: conversion, sorting, sampling and text",
 "A list of numbers and the pairs it stands for convert into each other without loss, and a list with a value missing is refused or completed with the given replacement. The pairs, the values of x and y and the single points of a discrete term are those it was given; writing one changes only that one, and there is none beyond the last. Sorting keeps exactly the points and orders them by x. Discretising a term over n steps gives the n + 1 equally spaced points from start to end, each with the membership of the term there (limited to [0, 1] when asked) and keeps its name. Pairs are written in order with the given signs around, between and after them.",
 ["inputs"], "every list and number of points, order of points, range, resolution and set of signs",
 "Tests convert and print two or three lists; sampling over other ranges, element access and sorting of permuted points are not covered.",
 ["src/term/Discrete.cpp"], [("conversion", "Discrete::toPairs, toVector"), ("sampling", "Discrete::discretize"), ("sorting", "Discrete::sort"), ("text", "Discrete::formatXY")])

# ---- not decided by this family
prop("C40", "Concurrent use of one engine is safe under external synchronisation only",
 "Evaluating one engine from several threads requires external synchronisation, and with it yields the same results as sequential use.",
 ["schedules"], "all interleavings of operations on one engine",
 "Single-threaded tests.", ["src/Engine.cpp"], [("none", "no locks in the library")])
prop("C41", "Defuzzified values converge to the exact integral as resolution grows",
 "The error of integral defuzzification vanishes as the resolution increases.",
 ["inputs", "configurations"], "all terms and resolutions",
 "A limit statement over resolutions.", ["src/defuzzifier"], [("sampling", "Operation::midpoints")])
prop("C43", "Example controllers reproduce the reference outputs of other tools",
 "The bundled controllers produce the values of the reference datasets within tolerance for every input.",
 ["inputs"], "all inputs of all bundled examples",
 "The benchmark tests sample datasets.", ["examples", "src/Benchmark.cpp"], [("benchmark", "Benchmark::run")])
prop("C44", "Import, evaluation and export terminate within time linear in their input",
 "Processing time is bounded by the number of rules times resolution and import time by the text length.",
 ["inputs"], "all engines and texts",
 "Timing is not tested.", ["src"], [("loops", "everywhere")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
