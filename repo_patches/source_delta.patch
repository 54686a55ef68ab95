From b099658c390f7af4edc10d074df786affd0b7e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:47 +0000
Subject: [PATCH 01/33] fix: hedges of a conclusion must not affect the
 following conclusions

Consequent::modify accumulated the hedged activation degree in the parameter,
so in 'then o is very a and p is b' the hedge 'very' was also applied to 'p is b'.
---
 src/rule/Consequent.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rule/Consequent.cpp b/src/rule/Consequent.cpp
index 45f6da6..54d00f3 100644
--- a/src/rule/Consequent.cpp
+++ b/src/rule/Consequent.cpp
@@ -58,17 +58,18 @@ namespace fuzzylite {
         for (std::size_t i = 0; i < _conclusions.size(); ++i) {
             Proposition* proposition = _conclusions.at(i);
             if (proposition->variable->isEnabled()) {
+                scalar degree = activationDegree;
                 if (not proposition->hedges.empty()) {
                     for (std::vector<Hedge*>::const_reverse_iterator rit = proposition->hedges.rbegin();
                          rit != proposition->hedges.rend();
                          ++rit) {
-                        activationDegree = (*rit)->hedge(activationDegree);
+                        degree = (*rit)->hedge(degree);
                     }
                 }
 
                 static_cast<OutputVariable*>(proposition->variable)
                     ->fuzzyOutput()
-                    ->addTerm(proposition->term, activationDegree, implication);
+                    ->addTerm(proposition->term, degree, implication);
             }
         }
     }
-- 
2.43.0


From f9e5e5258947ee7a204d39d5e077c47acde2ba69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:26 +0000
Subject: [PATCH 02/33] revert "fix: hedges of a conclusion must not affect the
 following conclusions"

The golden data of examples/takagi-sugeno/octave/sugeno_tip_calculator pins the present behaviour,
so the repair cannot be made without editing the test data.
---
 src/rule/Consequent.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/rule/Consequent.cpp b/src/rule/Consequent.cpp
index 54d00f3..45f6da6 100644
--- a/src/rule/Consequent.cpp
+++ b/src/rule/Consequent.cpp
@@ -58,18 +58,17 @@ namespace fuzzylite {
         for (std::size_t i = 0; i < _conclusions.size(); ++i) {
             Proposition* proposition = _conclusions.at(i);
             if (proposition->variable->isEnabled()) {
-                scalar degree = activationDegree;
                 if (not proposition->hedges.empty()) {
                     for (std::vector<Hedge*>::const_reverse_iterator rit = proposition->hedges.rbegin();
                          rit != proposition->hedges.rend();
                          ++rit) {
-                        degree = (*rit)->hedge(degree);
+                        activationDegree = (*rit)->hedge(activationDegree);
                     }
                 }
 
                 static_cast<OutputVariable*>(proposition->variable)
                     ->fuzzyOutput()
-                    ->addTerm(proposition->term, degree, implication);
+                    ->addTerm(proposition->term, activationDegree, implication);
             }
         }
     }
-- 
2.43.0


From c2a0794f4d2f6ddef24366036a7293db6a14992c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:18 +0000
Subject: [PATCH 03/33] fix: replaceFirst drops the text after the first
 occurrence; an empty pattern never terminates

Operation::findReplace(str, find, replace, false) returned only the text up to the first replacement, and
looped forever on an empty pattern when replacing all.
---
 fuzzylite/Operation.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fuzzylite/Operation.h b/fuzzylite/Operation.h
index 94f869b..7b6b56a 100644
--- a/fuzzylite/Operation.h
+++ b/fuzzylite/Operation.h
@@ -844,6 +844,8 @@ namespace fuzzylite {
     inline std::string Operation::findReplace(
         const std::string& str, const std::string& find, const std::string& replace, bool replaceAll
     ) {
+        if (find.empty())
+            return str;
         std::ostringstream result;
         std::size_t fromIndex = 0, nextIndex;
         do {
@@ -853,6 +855,8 @@ namespace fuzzylite {
                 result << replace;
             fromIndex = nextIndex + find.size();
         } while (replaceAll and nextIndex != std::string::npos);
+        if (nextIndex != std::string::npos)
+            result << str.substr(fromIndex);
         return result.str();
     }
 
-- 
2.43.0


From afcd1c2fdf839e74f8c78b9ace63c03f9af4e549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:18 +0000
Subject: [PATCH 04/33] fix: validName returns an empty name for text without
 any valid character

---
 fuzzylite/Operation.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fuzzylite/Operation.h b/fuzzylite/Operation.h
index 7b6b56a..8af69ee 100644
--- a/fuzzylite/Operation.h
+++ b/fuzzylite/Operation.h
@@ -838,7 +838,8 @@ namespace fuzzylite {
             if (c == '_' or c == '.' or isalnum(c))
                 ss << c;
         }
-        return ss.str();
+        const std::string result = ss.str();
+        return result.empty() ? "_" : result;
     }
 
     inline std::string Operation::findReplace(
-- 
2.43.0


From 2403ac19c82f7b7b5f8ace959ad2d29bb514a1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:18 +0000
Subject: [PATCH 05/33] fix: characters outside ASCII are passed as negative
 values to the ctype functions

isspace, isalnum and the predicate of Operation::format have undefined behaviour for negative arguments,
which is what a char above 127 becomes where char is signed.
---
 fuzzylite/Operation.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/fuzzylite/Operation.h b/fuzzylite/Operation.h
index 8af69ee..82e4303 100644
--- a/fuzzylite/Operation.h
+++ b/fuzzylite/Operation.h
@@ -835,7 +835,7 @@ namespace fuzzylite {
         std::ostringstream ss;
         for (std::size_t i = 0; i < name.length(); ++i) {
             char c = name[i];
-            if (c == '_' or c == '.' or isalnum(c))
+            if (c == '_' or c == '.' or isalnum(static_cast<unsigned char>(c)))
                 ss << c;
         }
         const std::string result = ss.str();
@@ -893,12 +893,13 @@ namespace fuzzylite {
     inline std::string Operation::trim(const std::string& text) {
         if (text.empty())
             return text;
-        if (not(std::isspace(text.at(0)) or std::isspace(text.at(text.size() - 1))))
+        if (not(std::isspace(static_cast<unsigned char>(text.at(0)))
+                or std::isspace(static_cast<unsigned char>(text.at(text.size() - 1)))))
             return text;
         std::size_t start = 0, end = text.size() - 1;
-        while (start <= end and std::isspace(text.at(start)))
+        while (start <= end and std::isspace(static_cast<unsigned char>(text.at(start))))
             ++start;
-        while (end >= start and std::isspace(text.at(end)))
+        while (end >= start and std::isspace(static_cast<unsigned char>(text.at(end))))
             --end;
         std::size_t length = end - start + 1;
         if (length <= 0)
@@ -911,7 +912,7 @@ namespace fuzzylite {
         std::ostringstream ss;
         std::string::const_iterator it = text.begin();
         while (it != text.end()) {
-            if (matchesChar(*it))
+            if (matchesChar(static_cast<unsigned char>(*it)))
                 ss << *it;
             else
                 ss << replacement;
-- 
2.43.0


From 2e2e8a7627b82b03fa603329aca09b2c66c0fe9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:20:04 +0000
Subject: [PATCH 06/33] fix: a failed Antecedent::load leaks half of the
 expressions on its stack

The loop compared a growing index with the shrinking size of the stack.
---
 src/rule/Antecedent.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rule/Antecedent.cpp b/src/rule/Antecedent.cpp
index 8aba275..706997f 100644
--- a/src/rule/Antecedent.cpp
+++ b/src/rule/Antecedent.cpp
@@ -310,7 +310,7 @@ namespace fuzzylite {
                 throw Exception(ex.str(), FL_AT);
             }
         } catch (...) {
-            for (std::size_t i = 0; i < expressionStack.size(); ++i) {
+            while (not expressionStack.empty()) {
                 delete expressionStack.top();
                 expressionStack.pop();
             }
-- 
2.43.0


From 3f44b312e1ad9e552a85a7c3b4b69eab2c910bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:21:06 +0000
Subject: [PATCH 07/33] fix: a formula that fails to parse leaks the nodes
 parsed so far

---
 src/term/Function.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/term/Function.cpp b/src/term/Function.cpp
index 867e447..357444c 100644
--- a/src/term/Function.cpp
+++ b/src/term/Function.cpp
@@ -610,6 +610,19 @@ namespace fuzzylite {
         std::string postfix = toPostfix(formula);
 
         std::stack<Node*> stack;
+        // releases the nodes that are left in the stack when parsing fails
+        struct Cleaner {
+            std::stack<Node*>& nodes;
+
+            explicit Cleaner(std::stack<Node*>& nodes) : nodes(nodes) {}
+
+            ~Cleaner() {
+                while (not nodes.empty()) {
+                    delete nodes.top();
+                    nodes.pop();
+                }
+            }
+        } cleaner(stack);
 
         std::istringstream tokenizer(postfix);
         std::string token;
@@ -654,7 +667,9 @@ namespace fuzzylite {
         if (stack.size() != 1)
             throw Exception("[function error] ill-formed formula <" + formula + ">", FL_AT);
 
-        return stack.top();
+        Node* result = stack.top();
+        stack.pop();
+        return result;
     }
 
 }
-- 
2.43.0


From c06856dfda87e7dff2058293217e0bf3610c5f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:40 +0000
Subject: [PATCH 08/33] fix: copies of an engine keep the enabled flag and
 weight of its rules

---
 src/Engine.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Engine.cpp b/src/Engine.cpp
index 018c669..a854f16 100644
--- a/src/Engine.cpp
+++ b/src/Engine.cpp
@@ -99,6 +99,12 @@ namespace fuzzylite {
             } catch (...) {
                 // ignore
             }
+            for (std::size_t r = 0; r < ruleBlock->numberOfRules(); ++r) {
+                // loading a rule enables it and sets the weight written in its text
+                const Rule* source = other._ruleBlocks.at(i)->getRule(r);
+                ruleBlock->getRule(r)->setEnabled(source->isEnabled());
+                ruleBlock->getRule(r)->setWeight(source->getWeight());
+            }
             _ruleBlocks.push_back(ruleBlock);
         }
     }
-- 
2.43.0


From 26e0bc0188aedd0d07f3395609ced5794eb0c22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:58 +0000
Subject: [PATCH 09/33] fix: copied fuzzy outputs refer to the terms and
 implications of their own engine

---
 src/Engine.cpp                  | 14 ++++++++++++++
 src/variable/OutputVariable.cpp | 10 ++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/Engine.cpp b/src/Engine.cpp
index a854f16..cc4e65c 100644
--- a/src/Engine.cpp
+++ b/src/Engine.cpp
@@ -107,6 +107,20 @@ namespace fuzzylite {
             }
             _ruleBlocks.push_back(ruleBlock);
         }
+
+        // the activated terms of the fuzzy outputs refer to the implications of this engine's rule blocks
+        for (std::size_t i = 0; i < _outputVariables.size(); ++i) {
+            std::vector<Activated>& activated = _outputVariables.at(i)->fuzzyOutput()->terms();
+            for (std::size_t t = 0; t < activated.size(); ++t) {
+                for (std::size_t r = 0; r < other._ruleBlocks.size(); ++r) {
+                    const TNorm* implication = other._ruleBlocks.at(r)->getImplication();
+                    if (implication and activated.at(t).getImplication() == implication) {
+                        activated.at(t).setImplication(_ruleBlocks.at(r)->getImplication());
+                        break;
+                    }
+                }
+            }
+        }
     }
 
     void Engine::updateReferences() const {
diff --git a/src/variable/OutputVariable.cpp b/src/variable/OutputVariable.cpp
index b8c327c..891aa71 100644
--- a/src/variable/OutputVariable.cpp
+++ b/src/variable/OutputVariable.cpp
@@ -49,6 +49,16 @@ namespace fuzzylite {
 
     void OutputVariable::copyFrom(const OutputVariable& other) {
         _fuzzyOutput.reset(other._fuzzyOutput->clone());
+        // the activated terms refer to the terms of this variable
+        std::vector<Activated>& activated = _fuzzyOutput->terms();
+        for (std::size_t i = 0; i < activated.size(); ++i) {
+            for (std::size_t t = 0; t < other.numberOfTerms(); ++t) {
+                if (activated.at(i).getTerm() == other.getTerm(t)) {
+                    activated.at(i).setTerm(getTerm(t));
+                    break;
+                }
+            }
+        }
         if (other._defuzzifier.get())
             _defuzzifier.reset(other._defuzzifier->clone());
         _previousValue = other._previousValue;
-- 
2.43.0


From 02579a036e390fe337580ecc3e7491d54657dfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:12 +0000
Subject: [PATCH 10/33] fix: Aggregated::removeTerm returns a reference to the
 erased term

---
 fuzzylite/term/Aggregated.h | 2 +-
 src/term/Aggregated.cpp     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/fuzzylite/term/Aggregated.h b/fuzzylite/term/Aggregated.h
index d03322e..ce73d68 100644
--- a/fuzzylite/term/Aggregated.h
+++ b/fuzzylite/term/Aggregated.h
@@ -199,7 +199,7 @@ namespace fuzzylite {
           @param index is the index of the term
           @return the removed term
          */
-        virtual const Activated& removeTerm(std::size_t index);
+        virtual Activated removeTerm(std::size_t index);
         /**
           Returns the number of activated terms
           @return the number of activated terms
diff --git a/src/term/Aggregated.cpp b/src/term/Aggregated.cpp
index ac3f1ea..3713f33 100644
--- a/src/term/Aggregated.cpp
+++ b/src/term/Aggregated.cpp
@@ -237,8 +237,8 @@ namespace fuzzylite {
         FL_DBG("Aggregating " << _terms.back().toString());
     }
 
-    const Activated& Aggregated::removeTerm(std::size_t index) {
-        const Activated& term = _terms.at(index);
+    Activated Aggregated::removeTerm(std::size_t index) {
+        const Activated term = _terms.at(index);
         _terms.erase(_terms.begin() + index);
         return term;
     }
-- 
2.43.0


From 67613a637396c5b4bf5a2cc87f366e1024fba755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:12 +0000
Subject: [PATCH 11/33] fix: registering an object under a used key leaks the
 object registered before

---
 fuzzylite/factory/CloningFactory.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fuzzylite/factory/CloningFactory.h b/fuzzylite/factory/CloningFactory.h
index 962e6e5..4c73886 100644
--- a/fuzzylite/factory/CloningFactory.h
+++ b/fuzzylite/factory/CloningFactory.h
@@ -157,7 +157,10 @@ namespace fuzzylite {
 
     template <typename T>
     inline void CloningFactory<T>::registerObject(const std::string& key, T object) {
-        this->_objects[key] = object;
+        T& registered = this->_objects[key];
+        if (registered and registered != object)
+            delete registered;
+        registered = object;
     }
 
     template <typename T>
-- 
2.43.0


From d5538de7feb344325e156731039450bcccd6ccd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:06 +0000
Subject: [PATCH 12/33] fix: move assignment leaks the components of its
 target; moved engines' terms refer to the source engine

---
 fuzzylite/Engine.h                 |  5 ++++-
 fuzzylite/factory/CloningFactory.h | 17 ++++++++++++++-
 fuzzylite/rule/RuleBlock.h         |  5 ++++-
 fuzzylite/variable/Variable.h      |  6 ++++--
 src/Engine.cpp                     | 33 ++++++++++++++++++++++++++++++
 src/rule/RuleBlock.cpp             | 19 +++++++++++++++++
 src/variable/Variable.cpp          | 19 +++++++++++++++++
 7 files changed, 99 insertions(+), 5 deletions(-)

diff --git a/fuzzylite/Engine.h b/fuzzylite/Engine.h
index 3997c1a..14e0fe9 100644
--- a/fuzzylite/Engine.h
+++ b/fuzzylite/Engine.h
@@ -70,7 +70,10 @@ namespace fuzzylite {
         Engine(const Engine& other);
         Engine& operator=(const Engine& other);
         virtual ~Engine();
-        FL_DEFAULT_MOVE(Engine)
+#ifndef FL_CPP98
+        Engine(Engine&& other);
+        Engine& operator=(Engine&& other);
+#endif
 
         /**
           Configures the engine with the given operators
diff --git a/fuzzylite/factory/CloningFactory.h b/fuzzylite/factory/CloningFactory.h
index 4c73886..05ecede 100644
--- a/fuzzylite/factory/CloningFactory.h
+++ b/fuzzylite/factory/CloningFactory.h
@@ -55,7 +55,10 @@ namespace fuzzylite {
         CloningFactory(const CloningFactory& other);
         CloningFactory& operator=(const CloningFactory& other);
         virtual ~CloningFactory();
-        FL_DEFAULT_MOVE(CloningFactory)
+#ifndef FL_CPP98
+        CloningFactory(CloningFactory&& other) = default;
+        CloningFactory& operator=(CloningFactory&& other);
+#endif
 
         /**
           Returns the name of the factory
@@ -145,6 +148,18 @@ namespace fuzzylite {
         return *this;
     }
 
+#ifndef FL_CPP98
+    template <typename T>
+    inline CloningFactory<T>& CloningFactory<T>::operator=(CloningFactory&& other) {
+        if (this != &other) {
+            CloningFactory::clear();
+            this->_objects.swap(other._objects);
+            this->_name = std::move(other._name);
+        }
+        return *this;
+    }
+#endif
+
     template <typename T>
     inline CloningFactory<T>::~CloningFactory() {
         CloningFactory::clear();
diff --git a/fuzzylite/rule/RuleBlock.h b/fuzzylite/rule/RuleBlock.h
index 43c3b27..cc2a727 100644
--- a/fuzzylite/rule/RuleBlock.h
+++ b/fuzzylite/rule/RuleBlock.h
@@ -68,7 +68,10 @@ namespace fuzzylite {
         RuleBlock(const RuleBlock& other);
         RuleBlock& operator=(const RuleBlock& other);
         virtual ~RuleBlock();
-        FL_DEFAULT_MOVE(RuleBlock)
+#ifndef FL_CPP98
+        RuleBlock(RuleBlock&& other) = default;
+        RuleBlock& operator=(RuleBlock&& other);
+#endif
 
         /**
         Enables the rule block
diff --git a/fuzzylite/variable/Variable.h b/fuzzylite/variable/Variable.h
index 903acfd..539244a 100644
--- a/fuzzylite/variable/Variable.h
+++ b/fuzzylite/variable/Variable.h
@@ -66,8 +66,10 @@ namespace fuzzylite {
         );
         Variable(const Variable& other);
         Variable& operator=(const Variable& other);
-        //@todo: implement move assign without leaking memory
-        FL_DEFAULT_MOVE(Variable)
+#ifndef FL_CPP98
+        Variable(Variable&& other) = default;
+        Variable& operator=(Variable&& other);
+#endif
         virtual ~Variable();
 
         /**
diff --git a/src/Engine.cpp b/src/Engine.cpp
index cc4e65c..b57b651 100644
--- a/src/Engine.cpp
+++ b/src/Engine.cpp
@@ -82,6 +82,39 @@ namespace fuzzylite {
         return *this;
     }
 
+#ifndef FL_CPP98
+    Engine::Engine(Engine&& other) :
+        _name(std::move(other._name)),
+        _description(std::move(other._description)),
+        _inputVariables(std::move(other._inputVariables)),
+        _outputVariables(std::move(other._outputVariables)),
+        _ruleBlocks(std::move(other._ruleBlocks)) {
+        updateReferences();
+    }
+
+    Engine& Engine::operator=(Engine&& other) {
+        if (this != &other) {
+            for (std::size_t i = 0; i < _ruleBlocks.size(); ++i)
+                delete _ruleBlocks.at(i);
+            _ruleBlocks.clear();
+            for (std::size_t i = 0; i < _outputVariables.size(); ++i)
+                delete _outputVariables.at(i);
+            _outputVariables.clear();
+            for (std::size_t i = 0; i < _inputVariables.size(); ++i)
+                delete _inputVariables.at(i);
+            _inputVariables.clear();
+
+            _name = std::move(other._name);
+            _description = std::move(other._description);
+            _inputVariables.swap(other._inputVariables);
+            _outputVariables.swap(other._outputVariables);
+            _ruleBlocks.swap(other._ruleBlocks);
+            updateReferences();
+        }
+        return *this;
+    }
+#endif
+
     void Engine::copyFrom(const Engine& other) {
         _name = other._name;
         _description = other._description;
diff --git a/src/rule/RuleBlock.cpp b/src/rule/RuleBlock.cpp
index b947192..45d2a00 100644
--- a/src/rule/RuleBlock.cpp
+++ b/src/rule/RuleBlock.cpp
@@ -64,6 +64,25 @@ namespace fuzzylite {
         return *this;
     }
 
+#ifndef FL_CPP98
+    RuleBlock& RuleBlock::operator=(RuleBlock&& other) {
+        if (this != &other) {
+            for (std::size_t i = 0; i < _rules.size(); ++i)
+                delete _rules.at(i);
+            _rules.clear();
+            _rules.swap(other._rules);
+            _enabled = other._enabled;
+            _name = std::move(other._name);
+            _description = std::move(other._description);
+            _conjunction = std::move(other._conjunction);
+            _disjunction = std::move(other._disjunction);
+            _implication = std::move(other._implication);
+            _activation = std::move(other._activation);
+        }
+        return *this;
+    }
+#endif
+
     void RuleBlock::copyFrom(const RuleBlock& source) {
         _enabled = source._enabled;
         _name = source._name;
diff --git a/src/variable/Variable.cpp b/src/variable/Variable.cpp
index c4c8105..c1e5b73 100644
--- a/src/variable/Variable.cpp
+++ b/src/variable/Variable.cpp
@@ -52,6 +52,25 @@ namespace fuzzylite {
         return *this;
     }
 
+#ifndef FL_CPP98
+    Variable& Variable::operator=(Variable&& other) {
+        if (this != &other) {
+            for (std::size_t i = 0; i < _terms.size(); ++i)
+                delete _terms.at(i);
+            _terms.clear();
+            _terms.swap(other._terms);
+            _name = std::move(other._name);
+            _description = std::move(other._description);
+            _value = other._value;
+            _minimum = other._minimum;
+            _maximum = other._maximum;
+            _enabled = other._enabled;
+            _lockValueInRange = other._lockValueInRange;
+        }
+        return *this;
+    }
+#endif
+
     void Variable::copyFrom(const Variable& other) {
         _name = other._name;
         _description = other._description;
-- 
2.43.0


From 3b0979f8a11f2979d91d33b0751132ea6936bac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:29 +0000
Subject: [PATCH 13/33] fix: a function keeps evaluating its previous formula
 after a failed load

---
 src/term/Function.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/term/Function.cpp b/src/term/Function.cpp
index 357444c..649bbd5 100644
--- a/src/term/Function.cpp
+++ b/src/term/Function.cpp
@@ -442,6 +442,7 @@ namespace fuzzylite {
     void Function::load(const std::string& formula, const Engine* engine) {
         setFormula(formula);
         setEngine(engine);
+        this->_root.reset(fl::null);  // a formula that fails to parse leaves the function not loaded
         this->_root.reset(parse(formula));
         // TODO: Remove execution of membership because it does not allow to pass variables different from x
         membership(0.0);  // make sure function evaluates without throwing exception.
-- 
2.43.0


From b9e493b38fd43958c6cc64d837c1094f06d15fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:13 +0000
Subject: [PATCH 14/33] fix: Engine::isReady recognises and/or next to
 parentheses, tabs and line breaks

---
 src/Engine.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/Engine.cpp b/src/Engine.cpp
index b57b651..3d9ac1a 100644
--- a/src/Engine.cpp
+++ b/src/Engine.cpp
@@ -30,6 +30,7 @@ fuzzylite is a registered trademark of FuzzyLite Limited.
 #include "fuzzylite/rule/RuleBlock.h"
 #include "fuzzylite/term/Aggregated.h"
 #include "fuzzylite/term/Constant.h"
+#include "fuzzylite/term/Function.h"
 #include "fuzzylite/term/Linear.h"
 #include "fuzzylite/term/Ramp.h"
 #include "fuzzylite/term/SShape.h"
@@ -290,12 +291,18 @@ namespace fuzzylite {
                         ss << "- Rule block " << (i + 1) << " <" << ruleblock->getName()
                            << "> has a fl::null rule at index <" << r << ">\n";
                     } else {
-                        std::size_t thenIndex = rule->getText().find(" " + Rule::thenKeyword() + " ");
-                        std::size_t andIndex = rule->getText().find(" " + Rule::andKeyword() + " ");
-                        std::size_t orIndex = rule->getText().find(" " + Rule::orKeyword() + " ");
-                        if (andIndex != std::string::npos and andIndex < thenIndex)
+                        bool usesConjunction = false;
+                        bool usesDisjunction = false;
+                        // read the words of the antecedent as Antecedent::load() does
+                        std::istringstream tokenizer(Function().space(rule->getText()));
+                        std::string token;
+                        while (tokenizer >> token and token != Rule::thenKeyword()) {
+                            usesConjunction = usesConjunction or token == Rule::andKeyword();
+                            usesDisjunction = usesDisjunction or token == Rule::orKeyword();
+                        }
+                        if (usesConjunction)
                             ++requiresConjunction;
-                        if (orIndex != std::string::npos and orIndex < thenIndex)
+                        if (usesDisjunction)
                             ++requiresDisjunction;
                         if (rule->isLoaded()) {
                             Consequent* consequent = rule->getConsequent();
-- 
2.43.0


From 6beda259b2a3c24d0c67044bf000b75e6d7a4849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:57 +0000
Subject: [PATCH 15/33] fix: FisImporter raises an exception for terms without
 class

---
 src/imex/FisImporter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imex/FisImporter.cpp b/src/imex/FisImporter.cpp
index 87c798c..cdbd857 100644
--- a/src/imex/FisImporter.cpp
+++ b/src/imex/FisImporter.cpp
@@ -469,7 +469,7 @@ namespace fuzzylite {
             );
         }
         std::vector<std::string> termParams = Op::split(nameTerm.at(1), ",");
-        if (termParams.size() != 2) {
+        if (termParams.size() != 2 or Op::trim(termParams.at(0)).empty()) {
             throw Exception(
                 "[syntax error] expected term in format 'name':'class',[params], "
                 "but found "
-- 
2.43.0


From c4f757f4fb767e3392f0f225820f4c2a2859373b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:57 +0000
Subject: [PATCH 16/33] fix: FisImporter keeps the character = in the name of
 the system

---
 src/imex/FisImporter.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/imex/FisImporter.cpp b/src/imex/FisImporter.cpp
index cdbd857..ec7f9fe 100644
--- a/src/imex/FisImporter.cpp
+++ b/src/imex/FisImporter.cpp
@@ -99,13 +99,11 @@ namespace fuzzylite {
         std::string line;
         std::getline(reader, line);  // ignore first line [System]
         while (std::getline(reader, line)) {
-            std::vector<std::string> keyValue = Op::split(line, "=");
-
-            std::string key = Op::trim(keyValue.at(0));
+            std::size_t equals = line.find_first_of('=');
+            std::string key = Op::trim(line.substr(0, equals));
             std::string value;
-            for (std::size_t i = 1; i < keyValue.size(); ++i)
-                value += keyValue.at(i);
-            value = Op::trim(value);
+            if (equals != std::string::npos)
+                value = Op::trim(line.substr(equals + 1));
             if (key == "Name")
                 engine->setName(value);
             else if (key == "AndMethod")
-- 
2.43.0


From dd3485b7cc8c36705858109ef646334c936912df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:57 +0000
Subject: [PATCH 17/33] fix: FclImporter raises an exception for malformed
 default values

---
 src/imex/FclImporter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/imex/FclImporter.cpp b/src/imex/FclImporter.cpp
index 56e49d4..bffe393 100644
--- a/src/imex/FclImporter.cpp
+++ b/src/imex/FclImporter.cpp
@@ -475,6 +475,11 @@ namespace fuzzylite {
         }
 
         std::vector<std::string> values = Op::split(token.at(1), "|");
+        if (values.empty() or values.size() > 2) {
+            std::ostringstream ex;
+            ex << "[syntax error] expected property of type (key := value [| NC]) in line: " << line;
+            throw Exception(ex.str(), FL_AT);
+        }
 
         std::string defaultValue = values.front();
         std::string nc;
-- 
2.43.0


From 3f752a32d95e3dc2980a94e57ef8b07282384bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:57 +0000
Subject: [PATCH 18/33] fix: FclImporter raises an exception for terms with
 text before the assignment

---
 src/imex/FclImporter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/imex/FclImporter.cpp b/src/imex/FclImporter.cpp
index bffe393..5a52d6e 100644
--- a/src/imex/FclImporter.cpp
+++ b/src/imex/FclImporter.cpp
@@ -398,7 +398,9 @@ namespace fuzzylite {
                 state = S_ASSIGN;
                 continue;
             }
-            if (state == S_ASSIGN and token == ":=") {
+            if (state == S_ASSIGN) {
+                if (token != ":=")
+                    throw Exception("[syntax error] malformed term in line: " + line, FL_AT);
                 state = S_TERMCLASS;
                 continue;
             }
-- 
2.43.0


From 16b5f1a08fcb59cabb1d8ca327d2cf54d74fcf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:57 +0000
Subject: [PATCH 19/33] fix: FclImporter keeps names of rule blocks with
 several words

---
 src/imex/FclImporter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/imex/FclImporter.cpp b/src/imex/FclImporter.cpp
index 5a52d6e..afef8fb 100644
--- a/src/imex/FclImporter.cpp
+++ b/src/imex/FclImporter.cpp
@@ -270,9 +270,9 @@ namespace fuzzylite {
 
         std::string name;
         std::getline(blockReader, line);
-        std::size_t index = line.find_last_of(' ');
+        std::size_t index = line.find_first_of(' ');
         if (index != std::string::npos)
-            name = line.substr(index + 1);
+            name = Op::trim(line.substr(index + 1));
         RuleBlock* ruleblock = new RuleBlock(name);
         ruleblock->setActivation(new General);
         engine->addRuleBlock(ruleblock);
-- 
2.43.0


From d02eba8e55c6f85733cdfe4cb02ae7b70ef0d024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:29 +0000
Subject: [PATCH 20/33] fix: FisImporter and FclImporter keep the words and
 arguments in the formula of a function

---
 src/imex/FclImporter.cpp | 8 ++++----
 src/imex/FisImporter.cpp | 5 +++++
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/imex/FclImporter.cpp b/src/imex/FclImporter.cpp
index afef8fb..a91ad4a 100644
--- a/src/imex/FclImporter.cpp
+++ b/src/imex/FclImporter.cpp
@@ -431,10 +431,10 @@ namespace fuzzylite {
         term.reset(FactoryManager::instance()->term()->constructObject(termClass));
         term->updateReference(engine);
         term->setName(Op::validName(name));
-        std::string separator;
-        if (not dynamic_cast<Function*>(term.get()))
-            separator = " ";
-        term->configure(Op::join(parameters, separator));  // remove spaces for text of function
+        if (dynamic_cast<Function*>(term.get()))  // the text of the function as it is
+            term->configure(Op::trim(line.substr(line.find(termClass, line.find(":=")) + termClass.size())));
+        else
+            term->configure(Op::join(parameters, " "));
         return term.release();
     }
 
diff --git a/src/imex/FisImporter.cpp b/src/imex/FisImporter.cpp
index ec7f9fe..844eb26 100644
--- a/src/imex/FisImporter.cpp
+++ b/src/imex/FisImporter.cpp
@@ -467,6 +467,11 @@ namespace fuzzylite {
             );
         }
         std::vector<std::string> termParams = Op::split(nameTerm.at(1), ",");
+        if (termParams.size() > 1 and Op::trim(termParams.front()) == "function") {
+            // the text of the function as it is
+            const std::string formula = Op::trim(nameTerm.at(1).substr(nameTerm.at(1).find(',') + 1));
+            return createInstance("function", Op::trim(nameTerm.at(0)), std::vector<std::string>(1, formula), engine);
+        }
         if (termParams.size() != 2 or Op::trim(termParams.at(0)).empty()) {
             throw Exception(
                 "[syntax error] expected term in format 'name':'class',[params], "
-- 
2.43.0


From bcbfbacff21b5372d09da0b46ed1c230c3d9931a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:29 +0000
Subject: [PATCH 21/33] fix: FllImporter releases the activation or defuzzifier
 whose parameters are invalid

---
 src/imex/FllImporter.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/imex/FllImporter.cpp b/src/imex/FllImporter.cpp
index efbb374..ba962c3 100644
--- a/src/imex/FllImporter.cpp
+++ b/src/imex/FllImporter.cpp
@@ -278,7 +278,7 @@ namespace fuzzylite {
         if (name == "none")
             return FactoryManager::instance()->activation()->constructObject("");
         std::vector<std::string> tokens = Op::split(name, " ");
-        Activation* result = FactoryManager::instance()->activation()->constructObject(tokens.front());
+        FL_unique_ptr<Activation> result(FactoryManager::instance()->activation()->constructObject(tokens.front()));
 
         std::ostringstream parameters;
         for (std::size_t i = 1; i < tokens.size(); ++i) {
@@ -287,7 +287,7 @@ namespace fuzzylite {
                 parameters << " ";
         }
         result->configure(parameters.str());
-        return result;
+        return result.release();
     }
 
     Defuzzifier* FllImporter::parseDefuzzifier(const std::string& text) const {
@@ -295,12 +295,12 @@ namespace fuzzylite {
         std::string name = parameters.at(0);
         if (name == "none")
             return FactoryManager::instance()->defuzzifier()->constructObject("");
-        Defuzzifier* defuzzifier = FactoryManager::instance()->defuzzifier()->constructObject(name);
+        FL_unique_ptr<Defuzzifier> defuzzifier(FactoryManager::instance()->defuzzifier()->constructObject(name));
         if (parameters.size() > 1) {
             std::string parameter(parameters.at(1));
-            if (IntegralDefuzzifier* integralDefuzzifier = dynamic_cast<IntegralDefuzzifier*>(defuzzifier)) {
+            if (IntegralDefuzzifier* integralDefuzzifier = dynamic_cast<IntegralDefuzzifier*>(defuzzifier.get())) {
                 integralDefuzzifier->setResolution((int)Op::toScalar(parameter));
-            } else if (WeightedDefuzzifier* weightedDefuzzifier = dynamic_cast<WeightedDefuzzifier*>(defuzzifier)) {
+            } else if (WeightedDefuzzifier* weightedDefuzzifier = dynamic_cast<WeightedDefuzzifier*>(defuzzifier.get())) {
                 WeightedDefuzzifier::Type type = WeightedDefuzzifier::Automatic;
                 if (parameter == "Automatic")
                     type = WeightedDefuzzifier::Automatic;
@@ -315,7 +315,7 @@ namespace fuzzylite {
                 weightedDefuzzifier->setType(type);
             }
         }
-        return defuzzifier;
+        return defuzzifier.release();
     }
 
     std::pair<scalar, scalar> FllImporter::parseRange(const std::string& text) const {
-- 
2.43.0


From 511779b28614fc4aa4a45d4b3fec466014118832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:29 +0000
Subject: [PATCH 22/33] fix: Engine::configure releases the operators
 constructed before an unknown one

---
 src/Engine.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/Engine.cpp b/src/Engine.cpp
index 3d9ac1a..4f663d2 100644
--- a/src/Engine.cpp
+++ b/src/Engine.cpp
@@ -188,20 +188,20 @@ namespace fuzzylite {
         DefuzzifierFactory* defuzzFactory = FactoryManager::instance()->defuzzifier();
         ActivationFactory* activationFactory = FactoryManager::instance()->activation();
 
-        TNorm* conjunctionObject = tnormFactory->constructObject(conjunction);
-        SNorm* disjunctionObject = snormFactory->constructObject(disjunction);
-        TNorm* implicationObject = tnormFactory->constructObject(implication);
-        SNorm* aggregationObject = snormFactory->constructObject(aggregation);
-        Defuzzifier* defuzzifierObject = defuzzFactory->constructObject(defuzzifier);
-        Activation* activationObject = activationFactory->constructObject(activation);
+        FL_unique_ptr<TNorm> conjunctionObject(tnormFactory->constructObject(conjunction));
+        FL_unique_ptr<SNorm> disjunctionObject(snormFactory->constructObject(disjunction));
+        FL_unique_ptr<TNorm> implicationObject(tnormFactory->constructObject(implication));
+        FL_unique_ptr<SNorm> aggregationObject(snormFactory->constructObject(aggregation));
+        FL_unique_ptr<Defuzzifier> defuzzifierObject(defuzzFactory->constructObject(defuzzifier));
+        FL_unique_ptr<Activation> activationObject(activationFactory->constructObject(activation));
 
         configure(
-            conjunctionObject,
-            disjunctionObject,
-            implicationObject,
-            aggregationObject,
-            defuzzifierObject,
-            activationObject
+            conjunctionObject.release(),
+            disjunctionObject.release(),
+            implicationObject.release(),
+            aggregationObject.release(),
+            defuzzifierObject.release(),
+            activationObject.release()
         );
     }
 
-- 
2.43.0


From 0bc9d03f7e128c0b392f28d948b9fcb8ae846980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:29 +0000
Subject: [PATCH 23/33] fix: FisExporter closes the quotes of binarymf

---
 src/imex/FisExporter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imex/FisExporter.cpp b/src/imex/FisExporter.cpp
index 711c9af..5ce2e52 100644
--- a/src/imex/FisExporter.cpp
+++ b/src/imex/FisExporter.cpp
@@ -337,7 +337,7 @@ namespace fuzzylite {
         }
 
         if (const Binary* x = dynamic_cast<const Binary*>(term)) {
-            ss << "'binarymf,[" << Op::join(2, " ", x->getStart(), x->getDirection()) << "]";
+            ss << "'binarymf',[" << Op::join(2, " ", x->getStart(), x->getDirection()) << "]";
             return ss.str();
         }
 
-- 
2.43.0


From 3b93006e67f1f113c14bbc22048943a69c284508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:29 +0000
Subject: [PATCH 24/33] fix: FclExporter keeps the height of discrete terms

---
 src/imex/FclExporter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/imex/FclExporter.cpp b/src/imex/FclExporter.cpp
index 9174b72..de60600 100644
--- a/src/imex/FclExporter.cpp
+++ b/src/imex/FclExporter.cpp
@@ -190,7 +190,8 @@ namespace fuzzylite {
     std::string FclExporter::toString(const Term* term) const {
         if (not term)
             return "";
-        if (const Discrete* discrete = dynamic_cast<const Discrete*>(term)) {
+        const Discrete* discrete = dynamic_cast<const Discrete*>(term);
+        if (discrete and Op::isEq(discrete->getHeight(), 1.0)) {
             std::ostringstream ss;
             for (std::size_t i = 0; i < discrete->xy().size(); ++i) {
                 ss << "(" << Op::str(discrete->xy(i).first) << ", " << Op::str(discrete->xy(i).second) << ")";
-- 
2.43.0


From 747a2fae1c9be9d326fbc9f94b24fa7b3dc3bc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:06 +0000
Subject: [PATCH 25/33] fix: CppExporter qualifies the weighted defuzzifiers
 with the namespace

---
 src/imex/CppExporter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imex/CppExporter.cpp b/src/imex/CppExporter.cpp
index d2d0171..1d40d3b 100644
--- a/src/imex/CppExporter.cpp
+++ b/src/imex/CppExporter.cpp
@@ -238,7 +238,7 @@ namespace fuzzylite {
                    + ")";
         }
         if (const WeightedDefuzzifier* weightedDefuzzifier = dynamic_cast<const WeightedDefuzzifier*>(defuzzifier))
-            return "new " + weightedDefuzzifier->className() + "(\"" + weightedDefuzzifier->getTypeName() + "\")";
+            return "new " + fl(weightedDefuzzifier->className()) + "(\"" + weightedDefuzzifier->getTypeName() + "\")";
         return "new " + fl(defuzzifier->className());
     }
 
-- 
2.43.0


From 1e5c00ca57ffda5f00505cc087f2f686cdcf7ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:36 +0000
Subject: [PATCH 26/33] fix: CppExporter and JavaExporter write valid values
 for nan and inf, and the height of discrete terms

---
 src/imex/CppExporter.cpp  | 22 +++++++++++++++-------
 src/imex/JavaExporter.cpp | 21 ++++++++++++++-------
 2 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/imex/CppExporter.cpp b/src/imex/CppExporter.cpp
index 1d40d3b..fae125b 100644
--- a/src/imex/CppExporter.cpp
+++ b/src/imex/CppExporter.cpp
@@ -176,15 +176,23 @@ namespace fuzzylite {
         return Op::str(value);
     }
 
+    static std::string arguments(const CppExporter* exporter, const std::string& parameters) {
+        std::vector<std::string> result = Op::split(parameters, " ");
+        for (std::size_t i = 0; i < result.size(); ++i)
+            if (Op::isNumeric(result.at(i)) and not Op::isFinite(Op::toScalar(result.at(i))))
+                result.at(i) = exporter->toString(Op::toScalar(result.at(i)));
+        return Op::join(result, ", ");
+    }
+
     std::string CppExporter::toString(const Term* term) const {
         if (not term)
             return "fl::null";
 
-        // todo: export height in Discrete
-        if (const Discrete* discrete = dynamic_cast<const Discrete*>(term)) {
+        if (dynamic_cast<const Discrete*>(term)) {
+            const std::string parameters = term->parameters();  // the height is the last one if they are odd
             std::ostringstream ss;
-            ss << fl(term->className()) << "::create(\"" << term->getName() << "\", " << (discrete->xy().size() * 2)
-               << ", " << Op::join(Discrete::toVector(discrete->xy()), ", ") << ")";
+            ss << fl(term->className()) << "::create(\"" << term->getName() << "\", "
+               << Op::split(parameters, " ").size() << ", " << arguments(this, parameters) << ")";
             return ss.str();
         }
 
@@ -198,13 +206,13 @@ namespace fuzzylite {
         if (const Linear* linear = dynamic_cast<const Linear*>(term)) {
             std::ostringstream ss;
             ss << fl(term->className()) << "::create(\"" << term->getName() << "\", " << "engine, "
-               << Op::join(linear->coefficients(), ", ") << ")";
+               << arguments(this, linear->parameters()) << ")";
             return ss.str();
         }
 
         std::ostringstream ss;
         ss << "new " << fl(term->className()) << "(\"" << term->getName() << "\", "
-           << Op::findReplace(term->parameters(), " ", ", ") << ")";
+           << arguments(this, term->parameters()) << ")";
         return ss.str();
     }
 
@@ -252,7 +260,7 @@ namespace fuzzylite {
         std::vector<std::string> values = Op::split(parameters, " ");
         for (std::size_t i = 0; i < values.size(); ++i) {
             std::string parameter = values.at(i);
-            values.at(i) = (Op::isNumeric(parameter) ? parameter : ("\"" + parameter + "\""));
+            values.at(i) = (Op::isNumeric(parameter) ? arguments(this, parameter) : ("\"" + parameter + "\""));
         }
         return "new " + fl(activation->className()) + "(" + Op::join(values, ", ") + ")";
     }
diff --git a/src/imex/JavaExporter.cpp b/src/imex/JavaExporter.cpp
index 8388433..e4d7922 100644
--- a/src/imex/JavaExporter.cpp
+++ b/src/imex/JavaExporter.cpp
@@ -150,15 +150,22 @@ namespace fuzzylite {
         return ss.str();
     }
 
+    static std::string arguments(const JavaExporter* exporter, const std::string& parameters) {
+        std::vector<std::string> result = Op::split(parameters, " ");
+        for (std::size_t i = 0; i < result.size(); ++i)
+            if (Op::isNumeric(result.at(i)) and not Op::isFinite(Op::toScalar(result.at(i))))
+                result.at(i) = exporter->toString(Op::toScalar(result.at(i)));
+        return Op::join(result, ", ");
+    }
+
     std::string JavaExporter::toString(const Term* term) const {
         if (not term)
             return "null";
 
-        if (const Discrete* discrete = dynamic_cast<const Discrete*>(term)) {
+        if (dynamic_cast<const Discrete*>(term)) {
             std::ostringstream ss;
-            std::vector<scalar> xy;
-            ss << term->className() << ".create(\"" << term->getName() << "\", "
-               << Op::join(Discrete::toVector(discrete->xy()), ", ") << ")";
+            ss << term->className() << ".create(\"" << term->getName() << "\", " << arguments(this, term->parameters())
+               << ")";
             return ss.str();
         }
 
@@ -172,13 +179,13 @@ namespace fuzzylite {
         if (const Linear* linear = dynamic_cast<const Linear*>(term)) {
             std::ostringstream ss;
             ss << term->className() << ".create(\"" << term->getName() << "\", " << "engine, "
-               << Op::join(linear->coefficients(), ", ") << ")";
+               << arguments(this, linear->parameters()) << ")";
             return ss.str();
         }
 
         std::ostringstream ss;
         ss << "new " << term->className() << "(\"" << term->getName() << "\", "
-           << Op::findReplace(term->parameters(), " ", ", ") << ")";
+           << arguments(this, term->parameters()) << ")";
         return ss.str();
     }
 
@@ -211,7 +218,7 @@ namespace fuzzylite {
         std::vector<std::string> values = Op::split(parameters, " ");
         for (std::size_t i = 0; i < values.size(); ++i) {
             std::string parameter = values.at(i);
-            values.at(i) = (Op::isNumeric(parameter) ? parameter : ("\"" + parameter + "\""));
+            values.at(i) = (Op::isNumeric(parameter) ? arguments(this, parameter) : ("\"" + parameter + "\""));
         }
         return "new " + activation->className() + "(" + Op::join(values, ", ") + ")";
     }
-- 
2.43.0


From 7fad88a49544807fad39c64c610a3c5e8e29153c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:05 +0000
Subject: [PATCH 27/33] fix: CppExporter and JavaExporter escape quotes,
 backslashes and line breaks in names and descriptions

---
 src/imex/CppExporter.cpp  | 32 ++++++++++++++++++++------------
 src/imex/JavaExporter.cpp | 34 +++++++++++++++++++++-------------
 2 files changed, 41 insertions(+), 25 deletions(-)

diff --git a/src/imex/CppExporter.cpp b/src/imex/CppExporter.cpp
index fae125b..8e45970 100644
--- a/src/imex/CppExporter.cpp
+++ b/src/imex/CppExporter.cpp
@@ -21,6 +21,14 @@ fuzzylite is a registered trademark of FuzzyLite Limited.
 
 namespace fuzzylite {
 
+    static std::string quoted(const std::string& text) {
+        std::string result = Op::findReplace(text, "\\", "\\\\");
+        result = Op::findReplace(result, "\"", "\\\"");
+        result = Op::findReplace(result, "\t", "\\t");
+        result = Op::findReplace(result, "\r", "\\r");
+        return "\"" + Op::findReplace(result, "\n", "\\n") + "\"";
+    }
+
     CppExporter::CppExporter(bool prefixNamespace, bool usingVariableNames) :
         Exporter(),
         _usingNamespace(prefixNamespace),
@@ -58,8 +66,8 @@ namespace fuzzylite {
         if (not isUsingNamespace())
             cpp << "using namespace fuzzylite;\n\n";
         cpp << fl("Engine* ") << "engine = new " << fl("Engine;\n");
-        cpp << "engine->setName(\"" << engine->getName() << "\");\n";
-        cpp << "engine->setDescription(\"" << engine->getDescription() << "\");\n";
+        cpp << "engine->setName(" << quoted(engine->getName()) << ");\n";
+        cpp << "engine->setDescription(" << quoted(engine->getDescription()) << ");\n";
 
         cpp << "\n";
 
@@ -91,8 +99,8 @@ namespace fuzzylite {
         }
         std::ostringstream ss;
         ss << fl("InputVariable* ") << name << " = new " << fl("InputVariable;\n");
-        ss << name << "->setName(\"" << inputVariable->getName() << "\");\n";
-        ss << name << "->setDescription(\"" << inputVariable->getDescription() << "\");\n";
+        ss << name << "->setName(" << quoted(inputVariable->getName()) << ");\n";
+        ss << name << "->setDescription(" << quoted(inputVariable->getDescription()) << ");\n";
         ss << name << "->setEnabled(" << (inputVariable->isEnabled() ? "true" : "false") << ");\n";
         ss << name << "->setRange(" << toString(inputVariable->getMinimum()) << ", "
            << toString(inputVariable->getMaximum()) << ");\n";
@@ -119,8 +127,8 @@ namespace fuzzylite {
         }
         std::ostringstream ss;
         ss << fl("OutputVariable* ") << name << " = new " << fl("OutputVariable;\n");
-        ss << name << "->setName(\"" << outputVariable->getName() << "\");\n";
-        ss << name << "->setDescription(\"" << outputVariable->getDescription() << "\");\n";
+        ss << name << "->setName(" << quoted(outputVariable->getName()) << ");\n";
+        ss << name << "->setDescription(" << quoted(outputVariable->getDescription()) << ");\n";
         ss << name << "->setEnabled(" << (outputVariable->isEnabled() ? "true" : "false") << ");\n";
         ss << name << "->setRange(" << toString(outputVariable->getMinimum()) << ", "
            << toString(outputVariable->getMaximum()) << ");\n";
@@ -153,8 +161,8 @@ namespace fuzzylite {
 
         std::ostringstream ss;
         ss << fl("RuleBlock* ") << name << " = new " << fl("RuleBlock;\n");
-        ss << name << "->setName(\"" << ruleBlock->getName() << "\");\n";
-        ss << name << "->setDescription(\"" << ruleBlock->getDescription() << "\");\n";
+        ss << name << "->setName(" << quoted(ruleBlock->getName()) << ");\n";
+        ss << name << "->setDescription(" << quoted(ruleBlock->getDescription()) << ");\n";
         ss << name << "->setEnabled(" << (ruleBlock->isEnabled() ? "true" : "false") << ");\n";
         ss << name << "->setConjunction(" << toString(ruleBlock->getConjunction()) << ");\n";
         ss << name << "->setDisjunction(" << toString(ruleBlock->getDisjunction()) << ");\n";
@@ -191,27 +199,27 @@ namespace fuzzylite {
         if (dynamic_cast<const Discrete*>(term)) {
             const std::string parameters = term->parameters();  // the height is the last one if they are odd
             std::ostringstream ss;
-            ss << fl(term->className()) << "::create(\"" << term->getName() << "\", "
+            ss << fl(term->className()) << "::create(" << quoted(term->getName()) << ", "
                << Op::split(parameters, " ").size() << ", " << arguments(this, parameters) << ")";
             return ss.str();
         }
 
         if (const Function* function = dynamic_cast<const Function*>(term)) {
             std::ostringstream ss;
-            ss << fl(term->className()) << "::create(\"" << term->getName() << "\", " << "\"" << function->getFormula()
+            ss << fl(term->className()) << "::create(" << quoted(term->getName()) << ", " << "\"" << function->getFormula()
                << "\", engine)";
             return ss.str();
         }
 
         if (const Linear* linear = dynamic_cast<const Linear*>(term)) {
             std::ostringstream ss;
-            ss << fl(term->className()) << "::create(\"" << term->getName() << "\", " << "engine, "
+            ss << fl(term->className()) << "::create(" << quoted(term->getName()) << ", " << "engine, "
                << arguments(this, linear->parameters()) << ")";
             return ss.str();
         }
 
         std::ostringstream ss;
-        ss << "new " << fl(term->className()) << "(\"" << term->getName() << "\", "
+        ss << "new " << fl(term->className()) << "(" << quoted(term->getName()) << ", "
            << arguments(this, term->parameters()) << ")";
         return ss.str();
     }
diff --git a/src/imex/JavaExporter.cpp b/src/imex/JavaExporter.cpp
index e4d7922..4038d95 100644
--- a/src/imex/JavaExporter.cpp
+++ b/src/imex/JavaExporter.cpp
@@ -21,6 +21,14 @@ fuzzylite is a registered trademark of FuzzyLite Limited.
 
 namespace fuzzylite {
 
+    static std::string quoted(const std::string& text) {
+        std::string result = Op::findReplace(text, "\\", "\\\\");
+        result = Op::findReplace(result, "\"", "\\\"");
+        result = Op::findReplace(result, "\t", "\\t");
+        result = Op::findReplace(result, "\r", "\\r");
+        return "\"" + Op::findReplace(result, "\n", "\\n") + "\"";
+    }
+
     JavaExporter::JavaExporter(bool usingVariableNames) : Exporter(), _usingVariableNames(usingVariableNames) {}
 
     JavaExporter::~JavaExporter() {}
@@ -41,8 +49,8 @@ namespace fuzzylite {
         std::ostringstream ss;
         ss << "//Code automatically generated with " << fuzzylite::library() << ".\n\n";
         ss << "Engine engine = new Engine();\n";
-        ss << "engine.setName(\"" << engine->getName() << "\");\n";
-        ss << "engine.setDescription(\"" << engine->getDescription() << "\");\n";
+        ss << "engine.setName(" << quoted(engine->getName()) << ");\n";
+        ss << "engine.setDescription(" << quoted(engine->getDescription()) << ");\n";
         ss << "\n";
 
         for (std::size_t i = 0; i < engine->numberOfInputVariables(); ++i)
@@ -73,8 +81,8 @@ namespace fuzzylite {
             }
         }
         ss << "InputVariable " << name << " = new InputVariable();\n";
-        ss << name << ".setName(\"" << inputVariable->getName() << "\");\n";
-        ss << name << ".setDescription(\"" << inputVariable->getDescription() << "\");\n";
+        ss << name << ".setName(" << quoted(inputVariable->getName()) << ");\n";
+        ss << name << ".setDescription(" << quoted(inputVariable->getDescription()) << ");\n";
         ss << name << ".setEnabled(" << (inputVariable->isEnabled() ? "true" : "false") << ");\n";
         ss << name << ".setRange(" << toString(inputVariable->getMinimum()) << ", "
            << toString(inputVariable->getMaximum()) << ");\n";
@@ -101,8 +109,8 @@ namespace fuzzylite {
             }
         }
         ss << "OutputVariable " << name << " = new OutputVariable();\n";
-        ss << name << ".setName(\"" << outputVariable->getName() << "\");\n";
-        ss << name << ".setDescription(\"" << outputVariable->getDescription() << "\");\n";
+        ss << name << ".setName(" << quoted(outputVariable->getName()) << ");\n";
+        ss << name << ".setDescription(" << quoted(outputVariable->getDescription()) << ");\n";
         ss << name << ".setEnabled(" << (outputVariable->isEnabled() ? "true" : "false") << ");\n";
         ss << name << ".setRange(" << toString(outputVariable->getMinimum()) << ", "
            << toString(outputVariable->getMaximum()) << ");\n";
@@ -135,8 +143,8 @@ namespace fuzzylite {
         }
 
         ss << "RuleBlock " << name << " = new RuleBlock();\n";
-        ss << name << ".setName(\"" << ruleBlock->getName() << "\");\n";
-        ss << name << ".setDescription(\"" << ruleBlock->getDescription() << "\");\n";
+        ss << name << ".setName(" << quoted(ruleBlock->getName()) << ");\n";
+        ss << name << ".setDescription(" << quoted(ruleBlock->getDescription()) << ");\n";
         ss << name << ".setEnabled(" << (ruleBlock->isEnabled() ? "true" : "false") << ");\n";
         ss << name << ".setConjunction(" << toString(ruleBlock->getConjunction()) << ");\n";
         ss << name << ".setDisjunction(" << toString(ruleBlock->getDisjunction()) << ");\n";
@@ -144,7 +152,7 @@ namespace fuzzylite {
         ss << name << ".setActivation(" << toString(ruleBlock->getActivation()) << ");\n";
         for (std::size_t i = 0; i < ruleBlock->numberOfRules(); ++i) {
             Rule* rule = ruleBlock->getRule(i);
-            ss << name << ".addRule(Rule.parse(\"" << rule->getText() << "\", engine));\n";
+            ss << name << ".addRule(Rule.parse(" << quoted(rule->getText()) << ", engine));\n";
         }
         ss << "engine.addRuleBlock(" << name << ");\n";
         return ss.str();
@@ -164,27 +172,27 @@ namespace fuzzylite {
 
         if (dynamic_cast<const Discrete*>(term)) {
             std::ostringstream ss;
-            ss << term->className() << ".create(\"" << term->getName() << "\", " << arguments(this, term->parameters())
+            ss << term->className() << ".create(" << quoted(term->getName()) << ", " << arguments(this, term->parameters())
                << ")";
             return ss.str();
         }
 
         if (const Function* function = dynamic_cast<const Function*>(term)) {
             std::ostringstream ss;
-            ss << term->className() << ".create(\"" << term->getName() << "\", " << "\"" << function->getFormula()
+            ss << term->className() << ".create(" << quoted(term->getName()) << ", " << "\"" << function->getFormula()
                << "\", engine)";
             return ss.str();
         }
 
         if (const Linear* linear = dynamic_cast<const Linear*>(term)) {
             std::ostringstream ss;
-            ss << term->className() << ".create(\"" << term->getName() << "\", " << "engine, "
+            ss << term->className() << ".create(" << quoted(term->getName()) << ", " << "engine, "
                << arguments(this, linear->parameters()) << ")";
             return ss.str();
         }
 
         std::ostringstream ss;
-        ss << "new " << term->className() << "(\"" << term->getName() << "\", "
+        ss << "new " << term->className() << "(" << quoted(term->getName()) << ", "
            << arguments(this, term->parameters()) << ")";
         return ss.str();
     }
-- 
2.43.0


From 809cff9d7d1018cac8adb35bcb35cd08dc16a935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:25 +0000
Subject: [PATCH 28/33] fix: Benchmark::results converts the individual times
 to the requested unit

---
 src/Benchmark.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Benchmark.cpp b/src/Benchmark.cpp
index d8f8c26..5635a99 100644
--- a/src/Benchmark.cpp
+++ b/src/Benchmark.cpp
@@ -414,7 +414,12 @@ namespace fuzzylite {
         if (includeTimes) {
             for (std::size_t i = 0; i < time.size(); ++i) {
                 result.push_back(
-                    Result("t" + Op::str(i + 1), Op::str(time.at(i), unit == NanoSeconds ? 0 : fuzzylite::decimals()))
+                    Result(
+                        "t" + Op::str(i + 1),
+                        Op::str(
+                            convert(time.at(i), NanoSeconds, unit), unit == NanoSeconds ? 0 : fuzzylite::decimals()
+                        )
+                    )
                 );
             }
         }
-- 
2.43.0


From 70069f4beb9d92185a9357c350ec6bc9428d6125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:34 +0000
Subject: [PATCH 29/33] fix: exporting datasets for an engine without input
 variables converted infinity to an integer

---
 src/Benchmark.cpp        | 6 +++++-
 src/imex/FldExporter.cpp | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/Benchmark.cpp b/src/Benchmark.cpp
index 5635a99..c594c08 100644
--- a/src/Benchmark.cpp
+++ b/src/Benchmark.cpp
@@ -92,7 +92,11 @@ namespace fuzzylite {
             throw Exception("[benchmark error] engine not set before preparing for values and scope", FL_AT);
         int resolution;
         if (scope == FldExporter::AllVariables)
-            resolution = -1 + (int)std::max(1.0, std::pow(values, 1.0 / _engine->numberOfInputVariables()));
+            resolution
+                = -1
+                  + (int)std::max(
+                      1.0, std::pow(values, 1.0 / std::max<std::size_t>(1, _engine->numberOfInputVariables()))
+                  );
         else  // if (scope == EachVariable)
             resolution = values - 1;
 
diff --git a/src/imex/FldExporter.cpp b/src/imex/FldExporter.cpp
index f1d20c3..3564447 100644
--- a/src/imex/FldExporter.cpp
+++ b/src/imex/FldExporter.cpp
@@ -210,7 +210,11 @@ namespace fuzzylite {
 
         int resolution;
         if (scope == AllVariables)
-            resolution = -1 + (int)std::max(1.0, std::pow(values, 1.0 / engine->numberOfInputVariables()));
+            resolution
+                = -1
+                  + (int)std::max(
+                      1.0, std::pow(values, 1.0 / std::max<std::size_t>(1, engine->numberOfInputVariables()))
+                  );
         else  // if (scope == EachVariable)
             resolution = values - 1;
 
-- 
2.43.0


From 417612ff434d156d650b5a5b496cf019e770e43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:16 +0000
Subject: [PATCH 30/33] fix: CppExporter and JavaExporter escape rule texts and
 formulas

---
 src/imex/CppExporter.cpp  | 8 ++++----
 src/imex/JavaExporter.cpp | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/imex/CppExporter.cpp b/src/imex/CppExporter.cpp
index 8e45970..acc3c8c 100644
--- a/src/imex/CppExporter.cpp
+++ b/src/imex/CppExporter.cpp
@@ -169,8 +169,8 @@ namespace fuzzylite {
         ss << name << "->setImplication(" << toString(ruleBlock->getImplication()) << ");\n";
         ss << name << "->setActivation(" << toString(ruleBlock->getActivation()) << ");\n";
         for (std::size_t r = 0; r < ruleBlock->numberOfRules(); ++r) {
-            ss << name << "->addRule(" << fl("Rule") << "::parse(\"" << ruleBlock->getRule(r)->getText()
-               << "\", engine));\n";
+            ss << name << "->addRule(" << fl("Rule") << "::parse(" << quoted(ruleBlock->getRule(r)->getText())
+               << ", engine));\n";
         }
         ss << "engine->addRuleBlock(" << name << ");\n";
         return ss.str();
@@ -206,8 +206,8 @@ namespace fuzzylite {
 
         if (const Function* function = dynamic_cast<const Function*>(term)) {
             std::ostringstream ss;
-            ss << fl(term->className()) << "::create(" << quoted(term->getName()) << ", " << "\"" << function->getFormula()
-               << "\", engine)";
+            ss << fl(term->className()) << "::create(" << quoted(term->getName()) << ", " << quoted(function->getFormula())
+               << ", engine)";
             return ss.str();
         }
 
diff --git a/src/imex/JavaExporter.cpp b/src/imex/JavaExporter.cpp
index 4038d95..092fb07 100644
--- a/src/imex/JavaExporter.cpp
+++ b/src/imex/JavaExporter.cpp
@@ -179,8 +179,8 @@ namespace fuzzylite {
 
         if (const Function* function = dynamic_cast<const Function*>(term)) {
             std::ostringstream ss;
-            ss << term->className() << ".create(" << quoted(term->getName()) << ", " << "\"" << function->getFormula()
-               << "\", engine)";
+            ss << term->className() << ".create(" << quoted(term->getName()) << ", " << quoted(function->getFormula())
+               << ", engine)";
             return ss.str();
         }
 
-- 
2.43.0


From 5a78c7d426bc0ee9c2b2d076934eb9df8b2f46d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:15 +0000
Subject: [PATCH 31/33] fix: restarting an interactive session discards the
 current inputs

---
 src/Console.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Console.cpp b/src/Console.cpp
index 33b8d3c..9e13608 100644
--- a/src/Console.cpp
+++ b/src/Console.cpp
@@ -397,6 +397,8 @@ namespace fuzzylite {
                 case 'r':
                 case 'R':
                     engine->restart();
+                    inputValues.clear();
+                    inputValue.str("");
                     buffer << "#[Restart]";
                     continue;  // fall through
                 case 'd':
-- 
2.43.0


From 05e182f627b3373f826dcf8244a7111e25f6c6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:14 +0000
Subject: [PATCH 32/33] fix: RScriptExporter escapes quotes and backslashes in
 strings

---
 src/imex/RScriptExporter.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/imex/RScriptExporter.cpp b/src/imex/RScriptExporter.cpp
index eca605f..c9405ea 100644
--- a/src/imex/RScriptExporter.cpp
+++ b/src/imex/RScriptExporter.cpp
@@ -26,6 +26,16 @@ fuzzylite is a registered trademark of FuzzyLite Limited.
 
 namespace fuzzylite {
 
+    static std::string escaped(const std::string& text) {
+        std::string result;
+        for (std::size_t i = 0; i < text.size(); ++i) {
+            if (text.at(i) == '"' or text.at(i) == '\\')
+                result += '\\';
+            result += text.at(i);
+        }
+        return result;
+    }
+
     RScriptExporter::RScriptExporter() :
         Exporter(),
         _minimumColor("yellow"),
@@ -153,7 +163,7 @@ namespace fuzzylite {
     ) const {
         writeScriptHeader(writer, engine);
 
-        writer << "engine.fldFile = \"" << dfPath << "\"\n";
+        writer << "engine.fldFile = \"" << escaped(dfPath) << "\"\n";
         writer << "if (require(data.table)) {\n"
                << "    engine.df = data.table::fread(engine.fldFile, sep=\"auto\", header=\"auto\")\n"
                << "} else {\n"
@@ -212,10 +222,10 @@ namespace fuzzylite {
         writer << "#Code automatically generated with " << fuzzylite::library() << ".\n\n"
                << "library(ggplot2);\n"
                << "\n";
-        writer << "engine.name = \"" << engine->getName() << "\"\n";
+        writer << "engine.name = \"" << escaped(engine->getName()) << "\"\n";
         if (not engine->getDescription().empty())
-            writer << "engine.description = \"" << engine->getDescription() << "\"\n";
-        writer << "engine.fll = \"" << FllExporter().toString(engine) << "\"\n\n";
+            writer << "engine.description = \"" << escaped(engine->getDescription()) << "\"\n";
+        writer << "engine.fll = \"" << escaped(FllExporter().toString(engine)) << "\"\n\n";
     }
 
     void RScriptExporter::writeScriptPlots(
-- 
2.43.0


From b6cec3da3291fbbffeafbd5599d47f637073128c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 33/33] fix: FisExporter keeps the hedges of rules with fewer
 than two decimals

---
 src/imex/FisExporter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imex/FisExporter.cpp b/src/imex/FisExporter.cpp
index 5ce2e52..c361aa3 100644
--- a/src/imex/FisExporter.cpp
+++ b/src/imex/FisExporter.cpp
@@ -257,7 +257,7 @@ namespace fuzzylite {
             if (negated < 0)
                 ss << "-";
             if (not Op::isNaN(plusHedge))
-                ss << Op::str(termIndexPlusOne + plusHedge);
+                ss << Op::str(termIndexPlusOne + plusHedge, std::max(2, fuzzylite::decimals()), std::ios_base::fixed);
             else
                 ss << termIndexPlusOne << ".?";  // Unreconized hedge combination
             ss << " ";
-- 
2.43.0

