From 63b7cf6a6351dbffd2f9a21fc2a167a03c4edf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:28 +0000
Subject: [PATCH 01/62] fix: a product with a sum as a factor no longer trips
 an assertion

CommutativeExpr::handle asserted that no operand of another kind is a sum, so
2 * (p + q) aborted the parser in a debug build.
---
 src/PetriEngine/PQL/Expressions.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/PetriEngine/PQL/Expressions.cpp b/src/PetriEngine/PQL/Expressions.cpp
index 8611cde..a37bd68 100644
--- a/src/PetriEngine/PQL/Expressions.cpp
+++ b/src/PetriEngine/PQL/Expressions.cpp
@@ -642,7 +642,6 @@ namespace PetriEngine {
                     _exprs.insert(_exprs.end(), c->_exprs.begin(), c->_exprs.end());
                     _ids.insert(_ids.end(), c->_ids.begin(), c->_ids.end());
                 } else {
-                    assert(e->type() != type_id<PlusExpr>());
                     _exprs.emplace_back(e);
                 }
             } else {
-- 
2.43.0


From 8e34034d10d4ce4b91c7fc3d12d11c019c76eb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:42 +0000
Subject: [PATCH 02/62] fix: potency initialisation no longer uses a moved-from
 linear program

A deadlock proposition, a trivially constant comparison or a timeout returned
without a value, so a conjunction containing one merged a null program.
---
 src/PetriEngine/PQL/PotencyVisitor.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PetriEngine/PQL/PotencyVisitor.cpp b/src/PetriEngine/PQL/PotencyVisitor.cpp
index 4f8cb16..ff08f49 100644
--- a/src/PetriEngine/PQL/PotencyVisitor.cpp
+++ b/src/PetriEngine/PQL/PotencyVisitor.cpp
@@ -206,7 +206,7 @@ namespace PetriEngine { namespace PQL {
         if (!_context.potencyTimeout() && m1.canAnalyze() && m2.canAnalyze())
         {
             if ((m1.isZero() && m2.isZero()) || m1.substrationIsZero(m2))
-                return;
+                RETURN(RetvalPot())
             else
             {
                 int constant = m2.constant() - m1.constant();
@@ -242,7 +242,7 @@ namespace PetriEngine { namespace PQL {
         if (!_context.potencyTimeout() && m1.canAnalyze() && m2.canAnalyze())
         {
             if ((m1.isZero() && m2.isZero()) || m1.substrationIsZero(m2))
-                return;
+                RETURN(RetvalPot())
             else
             {
                 int constant = m2.constant() - m1.constant();
@@ -273,13 +273,13 @@ namespace PetriEngine { namespace PQL {
 
     void PotencyVisitor::_accept(const DeadlockCondition *element)
     {
-        return;
+        RETURN(RetvalPot())
     }
 
     void PotencyVisitor::_accept(const CompareConjunction *element)
     {
         if (_context.potencyTimeout())
-            return;
+            RETURN(RetvalPot())
 
         std::vector<AbstractProgramCollection_ptr> lpsv;
         auto neg = _context.negated() != element->isNegated();
-- 
2.43.0


From 697e509742db7cb51a29e94dc339de4613b6ecc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:42 +0000
Subject: [PATCH 03/62] fix: the answer to an invariant over a constant no
 longer depends on other queries

The invariant flag was stored in the boolean and deadlock conditions, which are
shared by all queries of a run: AG not deadlock next to EF deadlock, or AG true
next to EF false, got the answer of the other one.
---
 src/PetriEngine/PQL/PrepareForReachability.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/PetriEngine/PQL/PrepareForReachability.cpp b/src/PetriEngine/PQL/PrepareForReachability.cpp
index ea60558..bb2ea62 100644
--- a/src/PetriEngine/PQL/PrepareForReachability.cpp
+++ b/src/PetriEngine/PQL/PrepareForReachability.cpp
@@ -47,8 +47,14 @@ namespace PetriEngine { namespace PQL {
     }
 
     void PrepareForReachabilityVisitor::_accept(const EFCondition *condition) {
-        condition->getCond()->setInvariant(_negated);
-        RETURN(condition->getCond());
+        Condition_ptr cond = condition->getCond();
+        // the constants are shared between queries, the invariant-flag is not
+        if (auto boolean = std::dynamic_pointer_cast<BooleanCondition>(cond))
+            cond = std::make_shared<BooleanCondition>(boolean->value);
+        else if (std::dynamic_pointer_cast<DeadlockCondition>(cond))
+            cond = std::make_shared<DeadlockCondition>();
+        cond->setInvariant(_negated);
+        RETURN(cond);
     }
 
     void PrepareForReachabilityVisitor::_accept(const AXCondition *condition) {
-- 
2.43.0


From b8218f885f21d7c2305e797c6895cc46f9d3f378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:33 +0000
Subject: [PATCH 04/62] fix: rule C no longer takes an inhibitor arc for a
 consuming arc

A place parallel to the source of an inhibitor arc was removed although it was
what bounded the inhibited transition.
---
 src/PetriEngine/Reducer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/PetriEngine/Reducer.cpp b/src/PetriEngine/Reducer.cpp
index e52c2e9..087f9c7 100644
--- a/src/PetriEngine/Reducer.cpp
+++ b/src/PetriEngine/Reducer.cpp
@@ -698,6 +698,12 @@ namespace PetriEngine {
                             const auto &p1Arc = getInArc(p1, tran);
                             const auto &p2Arc = getInArc(p2, tran);
 
+                            if (p1Arc->inhib) {
+                                // p1 does not hold back its consumer, so p2 may
+                                ok = false;
+                                break;
+                            }
+
                             maxDrainRatio = std::max(maxDrainRatio, (double)p2Arc->weight / (double)p1Arc->weight);
                         }
 
-- 
2.43.0


From 935bdc53a76fb89bb02303adbc3df01f6826d7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:44 +0000
Subject: [PATCH 05/62] fix: rule E/P removes the transitions a removed place
 disables

When all arcs of an initially insufficient place go and the place is removed as
well, its consumers stayed behind without the place that disabled them.
---
 src/PetriEngine/Reducer.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/PetriEngine/Reducer.cpp b/src/PetriEngine/Reducer.cpp
index 087f9c7..f7a3751 100644
--- a/src/PetriEngine/Reducer.cpp
+++ b/src/PetriEngine/Reducer.cpp
@@ -1012,19 +1012,17 @@ namespace PetriEngine {
 
             bool allArcsRemoved = initiallyDisabled.size() + inhibited.size() == place.consumers.size();
 
+            for(uint32_t cons : initiallyDisabled) {
+                assert(!getInArc(p, getTransition(cons))->inhib);
+                skipTransition(cons);
+            }
+
             // Can the place be removed entirely?
             if(allArcsRemoved && (placeInQuery[p] == 0)) {
                 skipPlace(p);
                 continue;
             }
 
-            for(uint32_t cons : initiallyDisabled) {
-                Transition &t = getTransition(cons);
-                const auto& in = getInArc(p, t);
-                assert(!in->inhib);
-                skipTransition(cons);
-            }
-
             for (uint32_t tran : inhibited) {
                 Transition &t = getTransition(tran);
                 const auto& in = getInArc(p, t);
-- 
2.43.0


From 72ec3cd8dab4843e5a35033dce3dc0b75bc81811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:44 +0000
Subject: [PATCH 06/62] fix: user defined reductions skip the rules that do not
 preserve NEXT

The list of skipped rules did not contain the agglomerations (A, B, Q, R, S) and
others that the default sequence skips for formulas with NEXT.
---
 src/PetriEngine/Reducer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PetriEngine/Reducer.cpp b/src/PetriEngine/Reducer.cpp
index f7a3751..ce4a2f6 100644
--- a/src/PetriEngine/Reducer.cpp
+++ b/src/PetriEngine/Reducer.cpp
@@ -2917,7 +2917,8 @@ restart:
             const char* rnames = "ABCDEFGHIJKLMNOPQRS";
             for(int i = reduction.size() - 1; i >= 0; --i)
             {
-                if (contains_next && (reduction[i] == 2 || reduction[i] == 4 || reduction[i] == 5 || reduction[i] == 7 || reduction[i] == 8))
+                // C, E and J to P except K keep the number of steps, see the default sequence above
+                if (contains_next && !(reduction[i] == 2 || reduction[i] == 4 || (reduction[i] >= 9 && reduction[i] <= 15 && reduction[i] != 10)))
                 {
                     std::cerr << "Skipping Rule" << rnames[reduction[i]] << " due to NEXT operator in proposition" << std::endl;
                     reduction.erase(reduction.begin() + i);
-- 
2.43.0


From b30a26abe17bbd59e4e03f1b665386da6cde72ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:45 +0000
Subject: [PATCH 07/62] fix: rule Q in a user defined reduction sequence no
 longer runs until the timeout

---
 src/PetriEngine/Reducer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/PetriEngine/Reducer.cpp b/src/PetriEngine/Reducer.cpp
index ce4a2f6..6c48abf 100644
--- a/src/PetriEngine/Reducer.cpp
+++ b/src/PetriEngine/Reducer.cpp
@@ -2934,6 +2934,7 @@ restart:
                 }
             }
             bool changed = true;
+            bool usedQ = false;
 
             while(changed && !hasTimedout())
             {
@@ -2993,7 +2994,8 @@ restart:
                             if (ReducebyRuleEP(context.getQueryPlaceCount())) changed = true;
                             break;
                         case 16:
-                            if (ReducebyRuleQ(context.getQueryPlaceCount())) changed = true;
+                            // rule Q only moves tokens, on a cycle it applies forever
+                            if (!usedQ && ReducebyRuleQ(context.getQueryPlaceCount())) changed = usedQ = true;
                             break;
                         case 17:
                             while (ReducebyRuleR(context.getQueryPlaceCount(), explosion_limiter)) changed = true;
-- 
2.43.0


From d1d775e2f45fca1ecefc6113b31531afafa4a208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:06 +0000
Subject: [PATCH 08/62] fix: rule S no longer uses a transition reference
 invalidated by an added transition

---
 src/PetriEngine/Reducer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PetriEngine/Reducer.cpp b/src/PetriEngine/Reducer.cpp
index 6c48abf..0b93515 100644
--- a/src/PetriEngine/Reducer.cpp
+++ b/src/PetriEngine/Reducer.cpp
@@ -2709,7 +2709,8 @@ namespace PetriEngine {
 
                         uint32_t k = 1, w = 1;
                         if (!kIsAlwaysOne[n]) {
-                            w = getInArc(pid, consumer)->weight;
+                            // The reference from before the loop is invalid once a transition was added
+                            w = getInArc(pid, getTransition(originalConsumers[n]))->weight;
                             k = getOutArc(producer, pid)->weight / w;
                         }
 
-- 
2.43.0


From f36f8bf7106febd0af0de655372074d13116adee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:06 +0000
Subject: [PATCH 09/62] fix: evaluating a shallow condition also records its
 satisfaction, which stubborn sets read

---
 src/PetriEngine/PQL/Evaluation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PetriEngine/PQL/Evaluation.cpp b/src/PetriEngine/PQL/Evaluation.cpp
index 014245f..b3467b1 100644
--- a/src/PetriEngine/PQL/Evaluation.cpp
+++ b/src/PetriEngine/PQL/Evaluation.cpp
@@ -457,6 +457,7 @@ namespace PetriEngine { namespace PQL {
 
     void EvaluateAndSetVisitor::_accept(ShallowCondition *element) {
         Visitor::visit(this, element->getCompiled());
+        element->setSatisfied(_return_value);
     }
 
     int64_t evaluate(Expr *element, const EvaluationContext &context) {
-- 
2.43.0


From 5c465f619bc284b74ea3e5ec7de7ea46bb1c3bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:54 +0000
Subject: [PATCH 10/62] fix: LTL stubborn sets protect the key transition of
 accepting states from being disabled

---
 src/LTL/Stubborn/AutomatonStubbornSet.cpp | 22 ++++++++++--------
 src/LTL/Stubborn/SafeAutStubbornSet.cpp   | 27 ++++++++++++-----------
 2 files changed, 27 insertions(+), 22 deletions(-)

diff --git a/src/LTL/Stubborn/AutomatonStubbornSet.cpp b/src/LTL/Stubborn/AutomatonStubbornSet.cpp
index b12dca2..3b826b8 100644
--- a/src/LTL/Stubborn/AutomatonStubbornSet.cpp
+++ b/src/LTL/Stubborn/AutomatonStubbornSet.cpp
@@ -221,19 +221,23 @@ namespace LTL {
             //return true;
         }*/
 
-        // Ensure we have a key transition in accepting buchi states.
-        if (!_has_enabled_stubborn && buchi_state._is_accepting) {
+        // Ensure we have a key transition in accepting buchi states, i.e. an enabled stubborn
+        // transition that no sequence of transitions outside the stubborn set can disable.
+        if (buchi_state._is_accepting) {
+            auto key = _ordering.front();
             for (uint32_t i = 0; i < _net.numberOfTransitions(); ++i) {
-                if (!_stubborn[i] && _enabled[i]) {
-                    addToStub(i);
-                    _closure();
-                    if (_bad) {
-                        set_all_stubborn();
-                        return true;
-                    }
+                if (_stubborn[i] && _enabled[i]) {
+                    key = i;
                     break;
                 }
             }
+            addToStub(key);
+            postPresetOf(key);
+            _closure();
+            if (_bad) {
+                set_all_stubborn();
+                return true;
+            }
         }
 
         assert(!has_shared_mark(_stubborn.get(), _retarding_stubborn_set.stubborn(), _net.numberOfTransitions()));
diff --git a/src/LTL/Stubborn/SafeAutStubbornSet.cpp b/src/LTL/Stubborn/SafeAutStubbornSet.cpp
index 75cbcac..754cf66 100644
--- a/src/LTL/Stubborn/SafeAutStubbornSet.cpp
+++ b/src/LTL/Stubborn/SafeAutStubbornSet.cpp
@@ -71,20 +71,21 @@ namespace LTL {
             _print_debug();
             return true;
         }
-        // accepting states need key transition. add firs   t enabled by index.
-        if (state->is_accepting() && !_has_enabled_stubborn) {
-            //set_all_stubborn();
-            //_print_debug();
-            //return true;
-            addToStub(_ordering.front());
-            closure();
-/*            for (int i = 0; i < _net.numberOfPlaces(); ++i) {
-                if (_enabled[i]) {
-                    addToStub(i);
-                    closure();
-                    break;
+        // accepting states need a key transition, i.e. an enabled stubborn transition
+        // that no sequence of transitions outside the stubborn set can disable.
+        if (state->is_accepting()) {
+            auto key = _ordering.front();
+            if (_has_enabled_stubborn) {
+                for (uint32_t i = 0; i < _net.numberOfTransitions(); ++i) {
+                    if (_stubborn[i] && _enabled[i]) {
+                        key = i;
+                        break;
+                    }
                 }
-            }*/
+            }
+            addToStub(key);
+            postPresetOf(key);
+            closure();
             if (_bad) {
                 set_all_stubborn();
             }
-- 
2.43.0


From eb65a8b4a2d8216a8002b6a6863da6ce514ba268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:07 +0000
Subject: [PATCH 11/62] fix: Tarjan's LTL search again forces visible
 transitions when the classic stubborn sets close a cycle

---
 src/LTL/Algorithm/TarjanModelChecker.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/LTL/Algorithm/TarjanModelChecker.cpp b/src/LTL/Algorithm/TarjanModelChecker.cpp
index dd0b1b5..50ebd0c 100644
--- a/src/LTL/Algorithm/TarjanModelChecker.cpp
+++ b/src/LTL/Algorithm/TarjanModelChecker.cpp
@@ -161,15 +161,15 @@ namespace LTL {
                 auto marking = StateSet::get_marking_id(stateid);
                 auto suc_pos = _chash[hash(marking, StateSet::get_buchi_state(stateid))];
                 while (suc_pos != std::numeric_limits<idx_t>::max() && cstack[suc_pos]._stateid != stateid) {
-                    if constexpr (std::is_same<SuccGen, SpoolingSuccessorGenerator>::value) {
+                    if constexpr (std::is_same<SuccGen, ProductSuccessorGenerator<SpoolingSuccessorGenerator>>::value) {
                         if (cstack[suc_pos]._dstack && StateSet::get_marking_id(cstack[suc_pos]._stateid) == marking) {
-                            successorGenerator->generate_all(&parent, dtop._sucinfo);
+                            successorGenerator.generate_all(&parent, dtop._sucinfo);
                         }
                     }
                     suc_pos = cstack[suc_pos]._next;
                 }
                 if (suc_pos != std::numeric_limits<idx_t>::max()) {
-                    if constexpr (std::is_same<SuccGen, SpoolingSuccessorGenerator>::value) {
+                    if constexpr (std::is_same<SuccGen, ProductSuccessorGenerator<SpoolingSuccessorGenerator>>::value) {
                         if (cstack[suc_pos]._dstack) {
                             successorGenerator.generate_all(&parent, dtop._sucinfo);
                         }
-- 
2.43.0


From cca25ae583c5cec6a2aa0f066d76cfeb83b4a4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:07 +0000
Subject: [PATCH 12/62] fix: classic LTL stubborn sets accept a constant in the
 formula

---
 include/LTL/Stubborn/VisibleTransitionVisitor.h | 2 ++
 src/LTL/Stubborn/VisibleTransitionVisitor.cpp   | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/include/LTL/Stubborn/VisibleTransitionVisitor.h b/include/LTL/Stubborn/VisibleTransitionVisitor.h
index 2929317..9d0e2f4 100644
--- a/include/LTL/Stubborn/VisibleTransitionVisitor.h
+++ b/include/LTL/Stubborn/VisibleTransitionVisitor.h
@@ -45,6 +45,8 @@ namespace LTL {
 
         void _accept(const PetriEngine::PQL::DeadlockCondition *element) override;
 
+        void _accept(const PetriEngine::PQL::BooleanCondition *element) override;
+
         void _accept(const PetriEngine::PQL::CompareConjunction *element) override;
 
         void _accept(const PetriEngine::PQL::UnfoldedUpperBoundsCondition *element) override;
diff --git a/src/LTL/Stubborn/VisibleTransitionVisitor.cpp b/src/LTL/Stubborn/VisibleTransitionVisitor.cpp
index 108669f..1165706 100644
--- a/src/LTL/Stubborn/VisibleTransitionVisitor.cpp
+++ b/src/LTL/Stubborn/VisibleTransitionVisitor.cpp
@@ -58,6 +58,10 @@ namespace LTL {
         // no-op
     }
 
+    void VisibleTransitionVisitor::_accept(const PetriEngine::PQL::BooleanCondition *element) {
+        // no-op
+    }
+
     void VisibleTransitionVisitor::_accept(const PetriEngine::PQL::CompareConjunction *element) {
         for (const auto &cons : *element) {
             _places[cons._place] = true;
-- 
2.43.0


From 6929616e47a2f13828b7f69f2157e5ff29e2e592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:53 +0000
Subject: [PATCH 13/62] fix: trace abstraction refinement accepts a constant in
 the query

---
 include/PetriEngine/TAR/RangeContext.h | 1 +
 src/PetriEngine/TAR/RangeContext.cpp   | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/include/PetriEngine/TAR/RangeContext.h b/include/PetriEngine/TAR/RangeContext.h
index 812b4c0..2dfec04 100644
--- a/include/PetriEngine/TAR/RangeContext.h
+++ b/include/PetriEngine/TAR/RangeContext.h
@@ -60,6 +60,7 @@ namespace PetriEngine
         virtual void _accept(const DeadlockCondition* element) override;
         virtual void _accept(const CompareConjunction* element) override;
         virtual void _accept(const UnfoldedUpperBoundsCondition* element) override;
+        virtual void _accept(const BooleanCondition* element) override;
 
     };
 }
diff --git a/src/PetriEngine/TAR/RangeContext.cpp b/src/PetriEngine/TAR/RangeContext.cpp
index b6b6da4..f312dde 100644
--- a/src/PetriEngine/TAR/RangeContext.cpp
+++ b/src/PetriEngine/TAR/RangeContext.cpp
@@ -317,6 +317,11 @@ namespace PetriEngine {
         }
     }
 
+    void RangeContext::_accept(const BooleanCondition* element)
+    {
+        // a constant has its value in every marking, so it restricts no range
+    }
+
     void RangeContext::_accept(const UnfoldedUpperBoundsCondition* element)
     {
         for(auto& pb : element->places())
-- 
2.43.0


From 5ec4d6c2e341c22d3f266a20bc310865c6fac226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:53 +0000
Subject: [PATCH 14/62] fix: trace abstraction refinement no longer takes a
 negative bound for a huge one

---
 src/PetriEngine/TAR/RangeContext.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PetriEngine/TAR/RangeContext.cpp b/src/PetriEngine/TAR/RangeContext.cpp
index f312dde..61c61f5 100644
--- a/src/PetriEngine/TAR/RangeContext.cpp
+++ b/src/PetriEngine/TAR/RangeContext.cpp
@@ -158,7 +158,7 @@ namespace PetriEngine {
         if (_lt)
             pr._range._upper = std::min<uint32_t>(pr._range._upper, _limit);
         else
-            pr._range._lower = std::max<uint32_t>(pr._range._lower, _limit);
+            pr._range._lower = std::max<int64_t>(pr._range._lower, _limit); // the limit may be negative
         assert(pr._range._lower <= _base[element->offset()]);
         assert(pr._range._upper >= _base[element->offset()]);
     }
-- 
2.43.0


From dbe6c1d9239fdd65543c1563cfc794d80d48a028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:53 +0000
Subject: [PATCH 15/62] fix: the distance heuristic handles an E-quantified
 query given as LTL

---
 include/PetriEngine/PQL/Expressions.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/PetriEngine/PQL/Expressions.h b/include/PetriEngine/PQL/Expressions.h
index 8f11824..f783e3f 100644
--- a/include/PetriEngine/PQL/Expressions.h
+++ b/include/PetriEngine/PQL/Expressions.h
@@ -561,8 +561,7 @@ namespace PetriEngine {
             Quantifier getQuantifier() const override { return Quantifier::E; }
             Path getPath() const override             { return Path::pError; }
             uint32_t distance(DistanceContext& context) const override {
-                // TODO implement
-                assert(false); throw base_error("TODO implement");
+                return _cond->distance(context);
             }
             virtual type_id_t type() const { return PQL::type_id<decltype(this)>(); };
         };
-- 
2.43.0


From 76595dc3e228978304f7d21b77e8414a0711755e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:53 +0000
Subject: [PATCH 16/62] fix: automaton guided LTL stubborn sets take a
 transition that changes a guard only later for unsafe

---
 .../Stubborn/InterestingTransitionVisitor.h   | 19 ++++
 src/LTL/Stubborn/SafeAutStubbornSet.cpp       |  4 +-
 .../Stubborn/InterestingTransitionVisitor.cpp | 91 ++++++++-----------
 3 files changed, 62 insertions(+), 52 deletions(-)

diff --git a/include/PetriEngine/Stubborn/InterestingTransitionVisitor.h b/include/PetriEngine/Stubborn/InterestingTransitionVisitor.h
index ac9c84b..2c04c8b 100644
--- a/include/PetriEngine/Stubborn/InterestingTransitionVisitor.h
+++ b/include/PetriEngine/Stubborn/InterestingTransitionVisitor.h
@@ -196,6 +196,7 @@ namespace PetriEngine {
             void _accept(const PQL::SubtractExpr *element) override;
         };
 
+    protected:
         IncrVisitor incr;
         DecrVisitor decr;
     };
@@ -219,12 +220,30 @@ namespace PetriEngine {
         void negate_if_satisfied(const Condition *element);
     };
 
+    /**
+     * Visits every transition that can change the value of the condition, in the given marking or any later one.
+     */
     class AutomatonInterestingTransitionVisitor : public InterestingTransitionVisitor {
     public:
         explicit AutomatonInterestingTransitionVisitor(StubbornSet &stubbornSet, bool closure) : InterestingTransitionVisitor(stubbornSet, closure) {}
 
     protected:
+        void _accept(const PQL::AndCondition *element) override;
+
+        void _accept(const PQL::OrCondition *element) override;
+
+        void _accept(const PQL::LessThanCondition *element) override;
+
+        void _accept(const PQL::LessThanOrEqualCondition *element) override;
+
+        void _accept(const PQL::EqualCondition *element) override;
+
+        void _accept(const PQL::NotEqualCondition *element) override;
+
         void _accept(const PQL::CompareConjunction *element) override;
+
+    private:
+        void visit_compare(const PQL::CompareCondition *element);
     };
 }
 
diff --git a/src/LTL/Stubborn/SafeAutStubbornSet.cpp b/src/LTL/Stubborn/SafeAutStubbornSet.cpp
index 754cf66..c43dceb 100644
--- a/src/LTL/Stubborn/SafeAutStubbornSet.cpp
+++ b/src/LTL/Stubborn/SafeAutStubbornSet.cpp
@@ -37,7 +37,9 @@ namespace LTL {
             return true;
         }
 
-        InterestingLTLTransitionVisitor unsafe{*this, false};
+        // a transition is unsafe if it can change a condition in any marking: the runs
+        // it is moved to the front of need not stay in the current one.
+        AutomatonInterestingTransitionVisitor unsafe{*this, false};
         InterestingTransitionVisitor interesting{*this, false};
 
         PQL::EvaluationContext ctx((*_parent).marking(), &_net);
diff --git a/src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp b/src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp
index db53e6e..33866ed 100644
--- a/src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp
+++ b/src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp
@@ -425,60 +425,49 @@ namespace PetriEngine {
             InterestingTransitionVisitor::_accept(element);
     }
 
-    void AutomatonInterestingTransitionVisitor::_accept(const PQL::CompareConjunction *element)
+    void AutomatonInterestingTransitionVisitor::_accept(const PQL::AndCondition *element)
     {
-        auto neg = negated != element->isNegated();
-        for (auto &c : *element) {
-            int32_t cand = std::numeric_limits<int32_t>::max();
-            bool pre = false;
-            auto val = _stubborn.getParent()[c._place];
-            if (c._lower == c._upper) {
-                if (neg) {
-                    if (val != c._lower) continue;
-                    _stubborn.postsetOf(c._place, closure);
-                    _stubborn.presetOf(c._place, closure);
-                } else {
-                    if (val == c._lower) continue;
-                    if (val > c._lower) {
-                        cand = c._place;
-                        pre = false;
-                    } else {
-                        cand = c._place;
-                        pre = true;
-                    }
-                }
-            } else {
-                if (!neg) {
-                    if (val < c._lower && c._lower != 0) {
-                        assert(!neg);
-                        cand = c._place;
-                        pre = true;
-                    }
+        for (auto &c : *element) Visitor::visit(this, c);
+    }
 
-                    if (val > c._upper && c._upper != std::numeric_limits<uint32_t>::max()) {
-                        assert(!neg);
-                        cand = c._place;
-                        pre = false;
-                    }
-                } else {
-                    if (val >= c._lower && c._lower != 0) {
-                        _stubborn.postsetOf(c._place, closure);
-                    }
+    void AutomatonInterestingTransitionVisitor::_accept(const PQL::OrCondition *element)
+    {
+        for (auto &c : *element) Visitor::visit(this, c);
+    }
 
-                    if (val <= c._upper && c._upper != std::numeric_limits<uint32_t>::max()) {
-                        _stubborn.presetOf(c._place, closure);
-                    }
-                }
-            }
-            if (cand != std::numeric_limits<int32_t>::max()) {
-                if (pre) {
-                    _stubborn.presetOf(cand, closure);
-                } else if (!pre) {
-                    _stubborn.postsetOf(cand, closure);
-                }
-                cand = std::numeric_limits<int32_t>::max();
-            }
+    void AutomatonInterestingTransitionVisitor::visit_compare(const PQL::CompareCondition *element)
+    {
+        for (auto &e : {element->getExpr1(), element->getExpr2()}) {
+            Visitor::visit(incr, e);
+            Visitor::visit(decr, e);
         }
+    }
 
+    void AutomatonInterestingTransitionVisitor::_accept(const PQL::LessThanCondition *element)
+    {
+        visit_compare(element);
+    }
+
+    void AutomatonInterestingTransitionVisitor::_accept(const PQL::LessThanOrEqualCondition *element)
+    {
+        visit_compare(element);
+    }
+
+    void AutomatonInterestingTransitionVisitor::_accept(const PQL::EqualCondition *element)
+    {
+        visit_compare(element);
+    }
+
+    void AutomatonInterestingTransitionVisitor::_accept(const PQL::NotEqualCondition *element)
+    {
+        visit_compare(element);
+    }
+
+    void AutomatonInterestingTransitionVisitor::_accept(const PQL::CompareConjunction *element)
+    {
+        for (auto &c : *element) {
+            _stubborn.presetOf(c._place, closure);
+            _stubborn.postsetOf(c._place, closure);
+        }
     }
-}
\ No newline at end of file
+}
-- 
2.43.0


From c04e59fbb150c8c76117368d64c4b48b83fcd3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:25 +0000
Subject: [PATCH 17/62] fix: trace abstraction refinement and its place usage
 count accept a constant in the query

---
 include/PetriEngine/PQL/PlaceUseVisitor.h  | 1 +
 include/PetriEngine/TAR/RangeEvalContext.h | 1 +
 src/PetriEngine/PQL/PlaceUseVisitor.cpp    | 1 +
 src/PetriEngine/TAR/RangeEvalContext.cpp   | 5 +++++
 4 files changed, 8 insertions(+)

diff --git a/include/PetriEngine/PQL/PlaceUseVisitor.h b/include/PetriEngine/PQL/PlaceUseVisitor.h
index 9354fc4..b0c85ad 100644
--- a/include/PetriEngine/PQL/PlaceUseVisitor.h
+++ b/include/PetriEngine/PQL/PlaceUseVisitor.h
@@ -48,6 +48,7 @@ namespace PQL {
         virtual void _accept(const MinusExpr* element) override;
         virtual void _accept(const SubtractExpr* element) override;
         virtual void _accept(const DeadlockCondition* element) override;
+        virtual void _accept(const BooleanCondition* element) override;
         virtual void _accept(const CompareConjunction* element) override;
         virtual void _accept(const UnfoldedUpperBoundsCondition* element) override;
 
diff --git a/include/PetriEngine/TAR/RangeEvalContext.h b/include/PetriEngine/TAR/RangeEvalContext.h
index c89609c..44964c3 100644
--- a/include/PetriEngine/TAR/RangeEvalContext.h
+++ b/include/PetriEngine/TAR/RangeEvalContext.h
@@ -56,6 +56,7 @@ namespace PetriEngine {
         virtual void _accept(const MultiplyExpr* element) override;
         virtual void _accept(const MinusExpr* element) override;
         virtual void _accept(const SubtractExpr* element) override;        
+        virtual void _accept(const BooleanCondition* element) override;
 
     };
 }
diff --git a/src/PetriEngine/PQL/PlaceUseVisitor.cpp b/src/PetriEngine/PQL/PlaceUseVisitor.cpp
index 422277c..1ca1583 100644
--- a/src/PetriEngine/PQL/PlaceUseVisitor.cpp
+++ b/src/PetriEngine/PQL/PlaceUseVisitor.cpp
@@ -129,6 +129,7 @@ namespace PQL {
     // shallow elements, neither of these should exist in a compiled expression
     void PlaceUseVisitor::_accept(const LiteralExpr* element) {}
     void PlaceUseVisitor::_accept(const DeadlockCondition*) {}
+    void PlaceUseVisitor::_accept(const BooleanCondition*) {}
 
 }
 }
diff --git a/src/PetriEngine/TAR/RangeEvalContext.cpp b/src/PetriEngine/TAR/RangeEvalContext.cpp
index 643961e..76c9058 100644
--- a/src/PetriEngine/TAR/RangeEvalContext.cpp
+++ b/src/PetriEngine/TAR/RangeEvalContext.cpp
@@ -240,6 +240,11 @@ namespace PetriEngine
         _bool_result = true;
     }
 
+    void RangeEvalContext::_accept(const BooleanCondition* element)
+    {
+        _bool_result = element->value;
+    }
+
     void RangeEvalContext::_accept(const MultiplyExpr*)
     {
         _bool_result = true;
-- 
2.43.0


From 58904992ec8ac05074844e8c6e059db2aa3858db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:20 +0000
Subject: [PATCH 18/62] fix: an empty sum or product in a written XML query is
 a constant, not nothing

---
 src/PetriEngine/PQL/XMLPrinter.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/PetriEngine/PQL/XMLPrinter.cpp b/src/PetriEngine/PQL/XMLPrinter.cpp
index a9c9cc5..8fcc8d6 100644
--- a/src/PetriEngine/PQL/XMLPrinter.cpp
+++ b/src/PetriEngine/PQL/XMLPrinter.cpp
@@ -340,6 +340,10 @@ namespace PetriEngine {
                 Tag t(this, "integer-sum");
                 printer(element);
             }
+            else if(element->expressions().size() + ntoken_count + nconst == 0)
+            {
+                outputLine("<integer-constant>", element->constant(), "</integer-constant>");
+            }
             else
             {
                 printer(element);
@@ -367,6 +371,10 @@ namespace PetriEngine {
                 Tag i(this, "integer-product");
                 printer(element);
             }
+            else if(nconst + element->expressions().size() + element->places().size() == 0)
+            {
+                outputLine("<integer-constant>", element->constant(), "</integer-constant>");
+            }
             else
             {
                 printer(element);
-- 
2.43.0


From 75bb3e2a39cbf395527d9da280c9650d4e546d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:15 +0000
Subject: [PATCH 19/62] fix: nested DFS prints the closing transition of a loop
 and the right loop start

---
 .../SpoolingSuccessorGenerator.h                |  4 +++-
 src/LTL/Algorithm/NestedDepthFirstSearch.cpp    | 17 +++--------------
 2 files changed, 6 insertions(+), 15 deletions(-)

diff --git a/include/LTL/SuccessorGeneration/SpoolingSuccessorGenerator.h b/include/LTL/SuccessorGeneration/SpoolingSuccessorGenerator.h
index a659b10..bb1508e 100644
--- a/include/LTL/SuccessorGeneration/SpoolingSuccessorGenerator.h
+++ b/include/LTL/SuccessorGeneration/SpoolingSuccessorGenerator.h
@@ -48,7 +48,7 @@ namespace LTL {
             SuccessorQueue<> _successors;
             size_t _buchi_state;
             size_t _last_state;
-            size_t _transition;
+            size_t _transition = std::numeric_limits<uint32_t>::max() - 1;
 
             successor_info_t(size_t buchiState, size_t lastState) : _buchi_state(buchiState), _last_state(lastState) {}
 
@@ -107,6 +107,7 @@ namespace LTL {
             assert(_spooler != nullptr);
 
             PetriEngine::SuccessorGenerator::prepare(state);
+            _last = sucinfo._transition;
             if (sucinfo._successors == nullptr) {
                 uint32_t tid;
                 _spooler->prepare(state);
@@ -143,6 +144,7 @@ namespace LTL {
             assert(sucinfo._successors != nullptr);
             if (sucinfo._successors.empty()) {
                 _last = std::numeric_limits<uint32_t>::max() - 1;
+                sucinfo._transition = _last;
                 return false;
             }
             _last = sucinfo._successors.front();
diff --git a/src/LTL/Algorithm/NestedDepthFirstSearch.cpp b/src/LTL/Algorithm/NestedDepthFirstSearch.cpp
index 41e6c15..6777cb3 100644
--- a/src/LTL/Algorithm/NestedDepthFirstSearch.cpp
+++ b/src/LTL/Algorithm/NestedDepthFirstSearch.cpp
@@ -220,29 +220,19 @@ namespace LTL {
     template<typename T>
     void NestedDepthFirstSearch::build_trace(light_deque<stack_entry_t<T>>& todo, light_deque<stack_entry_t<T>>& nested_todo)
     {
-        size_t loop_id = std::numeric_limits<size_t>::max();
         // last element of todo-stack always has a "garbage" transition, it is the
         // current working element OR first element of nested.
-
         if(!todo.empty())
             todo.pop_back();
-        if(!nested_todo.empty()) {
-            // here the last state is significant
-            // of the successor is the check that demonstrates the violation.
-            loop_id = nested_todo.back()._id;
-            nested_todo.pop_back();
-        }
+        // the nested stack starts in the accepting state, and its last transition leads back there.
+        if(!nested_todo.empty())
+            _loop = todo.size();
 
         for(auto* stck : {&todo, &nested_todo})
         {
             while(!(*stck).empty())
             {
                 auto& top = (*stck).front();
-                if(top._id == loop_id)
-                {
-                    _loop = _trace.size();
-                    loop_id = std::numeric_limits<size_t>::max();
-                }
                 auto res = top._sucinfo.transition();
                 if constexpr (std::is_same<decltype(res),std::vector<uint32_t>>::value)
                 {
@@ -251,7 +241,6 @@ namespace LTL {
                 else
                 {
                     _trace.push_back({top._sucinfo.transition()});
-                    assert(top._sucinfo.transition() < _net.numberOfTransitions());
                 }
                 (*stck).pop_front();
             }
-- 
2.43.0


From f3a61470f9c6f84118de1c0a5e8e9d0d38b30ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:14 +0000
Subject: [PATCH 20/62] fix: Tarjan's LTL counterexamples are runs of the net
 whose loop closes

---
 include/LTL/Algorithm/TarjanModelChecker.h |  6 +-
 src/LTL/Algorithm/TarjanModelChecker.cpp   | 79 +++++++++-------------
 2 files changed, 36 insertions(+), 49 deletions(-)

diff --git a/include/LTL/Algorithm/TarjanModelChecker.h b/include/LTL/Algorithm/TarjanModelChecker.h
index 62cadb6..867cba7 100644
--- a/include/LTL/Algorithm/TarjanModelChecker.h
+++ b/include/LTL/Algorithm/TarjanModelChecker.h
@@ -129,7 +129,7 @@ namespace LTL {
         light_deque<idx_t> _astack;
 
         bool _invariant_loop = true;
-        size_t _loop_state = std::numeric_limits<size_t>::max();
+        idx_t _loop_pos = std::numeric_limits<idx_t>::max(); // position in cstack.
         uint32_t _loop_trans = std::numeric_limits<uint32_t>::max();
         size_t _discoverd = std::numeric_limits<size_t>::max();
         size_t _max_tokens = std::numeric_limits<size_t>::max();
@@ -146,8 +146,8 @@ namespace LTL {
         template<typename S, typename T, typename D, typename SuccGen>
         void pop(S& seen, light_deque<T>& cstack, light_deque<D>& dstack, SuccGen& successorGenerator);
 
-        template<typename T, typename D, typename SuccGen>
-        void update(light_deque<T>& cstack, light_deque<D>& d, SuccGen& successorGenerator, idx_t to);
+        template<typename T, typename D>
+        void update(light_deque<T>& cstack, light_deque<D>& d, idx_t to, uint32_t transition);
 
         template<typename S, typename T, typename SuccGen, typename D>
         bool next_trans(S& seen, light_deque<T>& cstack, SuccGen& successorGenerator, State &state, State &parent, D &delem);
diff --git a/src/LTL/Algorithm/TarjanModelChecker.cpp b/src/LTL/Algorithm/TarjanModelChecker.cpp
index 50ebd0c..0b485ac 100644
--- a/src/LTL/Algorithm/TarjanModelChecker.cpp
+++ b/src/LTL/Algorithm/TarjanModelChecker.cpp
@@ -17,6 +17,7 @@
 
 #include "LTL/Algorithm/TarjanModelChecker.h"
 #include "PetriEngine/PQL/PredicateCheckers.h"
+#include <algorithm>
 
 namespace LTL {
 
@@ -176,7 +177,7 @@ namespace LTL {
                     }
                     // we found the successor, i.e. there's a loop!
                     // now update lowlinks and check whether the loop contains an accepting state
-                    update(cstack, dstack, successorGenerator, suc_pos);
+                    update(cstack, dstack, suc_pos, successorGenerator.fired());
                     continue;
                 }
                 if (!_store.exists(stateid).first) {
@@ -231,6 +232,9 @@ namespace LTL {
         const auto p = dstack.back()._pos;
         dstack.pop_back();
         cstack[p]._dstack = false;
+        uint32_t transition = std::numeric_limits<uint32_t>::max();
+        if constexpr (T::save_trace())
+            transition = seen.get_history(cstack[p]._stateid).second;
         if (cstack[p]._lowlink == p) {
             while (cstack.size() > p) {
                 popCStack(seen, cstack);
@@ -240,7 +244,7 @@ namespace LTL {
             _astack.pop_back();
         }
         if (!dstack.empty()) {
-            update(cstack, dstack, successorGenerator, p);
+            update(cstack, dstack, p, transition);
             if constexpr (std::is_same<SuccGen, SpoolingSuccessorGenerator>::value) {
                 successorGenerator.pop(dstack.back()._sucinfo);
             }
@@ -257,8 +261,8 @@ namespace LTL {
     }
 
 
-    template<typename T, typename D, typename SuccGen>
-    void TarjanModelChecker::update(light_deque<T>& cstack, light_deque<D>& dstack, SuccGen& successorGenerator, idx_t to)
+    template<typename T, typename D>
+    void TarjanModelChecker::update(light_deque<T>& cstack, light_deque<D>& dstack, idx_t to, uint32_t transition)
     {
         const auto from = dstack.back()._pos;
         assert(cstack[to]._lowlink != std::numeric_limits<idx_t>::max() && cstack[from]._lowlink != std::numeric_limits<idx_t>::max());
@@ -267,13 +271,19 @@ namespace LTL {
             // if this earlier component precedes an accepting state,
             // the found loop is accepting and thus a violation.
             _violation = (!_astack.empty() && to <= _astack.back());
-            // either way update the component ID of the state we came from.
-            cstack[from]._lowlink = cstack[to]._lowlink;
             if constexpr (T::save_trace()) {
-                _loop_state = cstack[to]._stateid;
-                _loop_trans = successorGenerator.fired();
-                cstack[to]._lowsource = from;
+                if (_violation) {
+                    _loop_pos = to;
+                    _loop_trans = transition;
+                }
+                // only on a strict decrease, so that following _lowsource ends on the search path.
+                if (cstack[to]._lowlink < cstack[from]._lowlink) {
+                    cstack[from]._lowsource = to;
+                    cstack[from]._sourcetrans = transition;
+                }
             }
+            // either way update the component ID of the state we came from.
+            cstack[from]._lowlink = cstack[to]._lowlink;
         }
     }
 
@@ -294,50 +304,27 @@ namespace LTL {
     void TarjanModelChecker::build_trace(S& seen, light_deque<D> &&dstack, light_deque<C>& cstack)
     {
         assert(_violation);
-        if (cstack[dstack.back()._pos]._stateid == _loop_state)
-            _loop = _trace.size();
+        // the initial state has no history.
+        std::vector<idx_t> path{dstack.back()._pos};
         dstack.pop_back();
-        size_t p = 0;
-        bool had_deadlock = _loop_trans == std::numeric_limits<uint32_t>::max() - 1;
         // print (reverted) dstack
         while (!dstack.empty()) {
-            p = dstack.back()._pos;
+            path.push_back(dstack.back()._pos);
             dstack.pop_back();
-            auto stateid = cstack[p]._stateid;
-            auto[parent, tid] = seen.get_history(stateid);
+            auto[parent, tid] = seen.get_history(cstack[path.back()]._stateid);
             _trace.push_back({(uint32_t)tid});
-            if(tid >= std::numeric_limits<uint32_t>::max() - 1)
-            {
-                had_deadlock = true;
-                break;
-            }
-            if(cstack[p]._stateid == _loop_state)
-                _loop = _trace.size();
-            cstack[p]._lowlink = std::numeric_limits<idx_t>::max();
         }
-        // follow previously found back edges via lowsource until back in dstack.
-        if(!had_deadlock && cstack[p]._lowsource != std::numeric_limits<idx_t>::max())
-        {
+        // an accepting state with an invariant self-loop accepts every continuation.
+        if (_loop_pos == std::numeric_limits<idx_t>::max())
+            return;
+        _trace.push_back({_loop_trans});
+        // follow previously found edges via lowsource until back in dstack.
+        auto p = _loop_pos;
+        while (!cstack[p]._dstack) {
+            _trace.push_back({(uint32_t)cstack[p]._sourcetrans});
             p = cstack[p]._lowsource;
-            while (cstack[p]._lowlink != std::numeric_limits<idx_t>::max() && p != cstack[p]._lowsource) {
-                auto[parent, tid] = seen.get_history(cstack[p]._stateid);
-                assert(tid < _net.numberOfTransitions());
-                _trace.push_back({(uint32_t)tid});
-                if(tid >= std::numeric_limits<ptrie::uint>::max() - 1)
-                {
-                    had_deadlock = true;
-                    break;
-                }
-                if(cstack[p]._lowsource == std::numeric_limits<idx_t>::max())
-                    break;
-                assert(cstack[p]._lowsource != std::numeric_limits<idx_t>::max());
-                p = cstack[p]._lowsource;
-            }
-        }
-        if(!had_deadlock && _loop_trans < _net.numberOfTransitions())
-        {
-            assert(_loop_trans < _net.numberOfTransitions());
-            _trace.push_back({_loop_trans});
         }
+        _loop = std::find(path.begin(), path.end(), p) - path.begin();
     }
 }
+
-- 
2.43.0


From b88bcba952385a6619e47d4478fe01686759b68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:30 +0000
Subject: [PATCH 21/62] fix: traces of reduced nets fire the removed
 transitions as often as the reduction did

---
 include/PetriEngine/Reducer.h |  9 +++++--
 src/PetriEngine/Reducer.cpp   | 50 ++++++++++++++++++++++-------------
 2 files changed, 38 insertions(+), 21 deletions(-)

diff --git a/include/PetriEngine/Reducer.h b/include/PetriEngine/Reducer.h
index 9ab38ea..b1d2101 100644
--- a/include/PetriEngine/Reducer.h
+++ b/include/PetriEngine/Reducer.h
@@ -200,8 +200,13 @@ namespace PetriEngine {
             return (diff.count() >= timeout);
         }
 
-        std::vector<shared_const_string> _initfire;
-        std::unordered_map<std::string, std::vector<shared_const_string>> _postfire;
+        // a transition to fire, and how many of the entries of its own _postfire
+        // applied when it was recorded (later ones are recorded separately).
+        using fire_entry_t = std::pair<shared_const_string, size_t>;
+        fire_entry_t fireEntry(const shared_const_string& transition) const;
+        void printFire(std::ostream& out, const fire_entry_t& entry) const;
+        std::vector<fire_entry_t> _initfire;
+        std::unordered_map<std::string, std::vector<fire_entry_t>> _postfire;
         // _transitionsBeforeReduction[transitionName] = { {placeName, weight}, ... }
         // Associate a transition with the vector of pre-places and their weights
         std::unordered_map<std::string, std::vector<ExpandedArc>> _transitionsBeforeReduction;
diff --git a/src/PetriEngine/Reducer.cpp b/src/PetriEngine/Reducer.cpp
index 0b93515..187242f 100644
--- a/src/PetriEngine/Reducer.cpp
+++ b/src/PetriEngine/Reducer.cpp
@@ -362,11 +362,15 @@ namespace PetriEngine {
                 for(size_t pp : pre.producers)
                 {
                     auto prefire = getTransitionName(pp);
-                    _postfire[*prefire].push_back(tname);
+                    const auto times = getOutArc(parent->_transitions[pp], pPre)->weight / w;
+                    for(size_t i = 0; i < times; ++i)
+                    {
+                        _postfire[*prefire].push_back(fireEntry(tname));
+                    }
                 }
-                for(size_t i = 0; i < parent->initMarking()[pPre]; ++i)
+                for(size_t i = 0; i < parent->initMarking()[pPre] / w; ++i)
                 {
-                    _initfire.push_back(tname);
+                    _initfire.push_back(fireEntry(tname));
                 }
             }
 
@@ -540,12 +544,12 @@ namespace PetriEngine {
                     auto tinname  = getTransitionName(tIn);
                     for(size_t i = 0; i < multiplier; ++i)
                     {
-                        _postfire[*toutname].push_back(tinname);
+                        _postfire[*toutname].push_back(fireEntry(tinname));
                     }
 
-                    for(size_t i = 0; initm > 0 && i < initm / inArc->weight; ++i )
+                    for(size_t i = 0; i < initm; ++i )
                     {
-                        _initfire.push_back(tinname);
+                        _initfire.push_back(fireEntry(tinname));
                     }
                 }
 
@@ -2374,7 +2378,7 @@ namespace PetriEngine {
             if(reconstructTrace)
             {
                 for(size_t i = 0; i < k; ++i)
-                    _initfire.emplace_back(getTransitionName(t));
+                    _initfire.push_back(fireEntry(getTransitionName(t)));
             }
 
             _ruleQ++;
@@ -3033,30 +3037,38 @@ restart:
         }
     }
 
+    Reducer::fire_entry_t Reducer::fireEntry(const shared_const_string& transition) const
+    {
+        auto it = _postfire.find(*transition);
+        return {transition, it == std::end(_postfire) ? 0 : it->second.size()};
+    }
+
+    void Reducer::printFire(std::ostream& out, const fire_entry_t& entry) const
+    {
+        out << "\t<transition id=\"" << *entry.first << "\">\n";
+        tokenConsumption(out, *entry.first);
+        out << "\t</transition>\n";
+        if (entry.second == 0)
+            return;
+        const auto& post = _postfire.find(*entry.first)->second;
+        for (size_t i = 0; i < entry.second; ++i)
+            printFire(out, post[i]);
+    }
+
     void Reducer::postFire(std::ostream& out, const std::string& transition) const
     {
         auto it = _postfire.find(transition);
         if (it != std::end(_postfire))
         {
             for (const auto& el : it->second)
-            {
-                out << "\t<transition id=\"" << *el << "\">\n";
-                tokenConsumption(out, *el);
-                out << "\t</transition>\n";
-                postFire(out, *el);
-            }
+                printFire(out, el);
         }
     }
 
     void Reducer::initFire(std::ostream& out) const
     {
         for (const auto& init : _initfire)
-        {
-            out << "\t<transition id=\"" << *init << "\">\n";
-            tokenConsumption(out, *init);
-            out << "\t</transition>\n";
-            postFire(out, *init);
-        }
+            printFire(out, init);
     }
 
     void Reducer::tokenConsumption(std::ostream& out, const std::string& transition) const
-- 
2.43.0


From 37c9d95a44cc7018659305bfaef2887c4630f91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:17 +0000
Subject: [PATCH 22/62] fix: LTL search on a net reduced to no places ends

---
 include/LTL/SuccessorGeneration/ResumingSuccessorGenerator.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/LTL/SuccessorGeneration/ResumingSuccessorGenerator.h b/include/LTL/SuccessorGeneration/ResumingSuccessorGenerator.h
index 822ee97..792b9a7 100644
--- a/include/LTL/SuccessorGeneration/ResumingSuccessorGenerator.h
+++ b/include/LTL/SuccessorGeneration/ResumingSuccessorGenerator.h
@@ -80,6 +80,9 @@ namespace LTL {
         bool next(PetriEngine::Structures::State &write, successor_info_t &sucinfo) {
             bool has_suc = PetriEngine::SuccessorGenerator::next(write);
             get_succ_info(sucinfo);
+            // without places nothing was counted, still the state is no longer fresh
+            if (!has_suc && sucinfo.fresh())
+                sucinfo._tcounter = 0;
             return has_suc;
         }
 
-- 
2.43.0


From 9f65ce9d7ffd237e7f3bfcb20b58d821718905ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:36 +0000
Subject: [PATCH 23/62] fix: comparing two products no longer cancels a shared
 place, which may be empty

---
 src/PetriEngine/PQL/PushNegation.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/PetriEngine/PQL/PushNegation.cpp b/src/PetriEngine/PQL/PushNegation.cpp
index 197a4e0..ca4b20a 100644
--- a/src/PetriEngine/PQL/PushNegation.cpp
+++ b/src/PetriEngine/PQL/PushNegation.cpp
@@ -94,10 +94,6 @@ namespace PetriEngine { namespace PQL {
             if(auto p2 = std::dynamic_pointer_cast<PlusExpr>(_expr2))
                 remdup(p1, p2);
 
-        if(auto m1 = std::dynamic_pointer_cast<MultiplyExpr>(_expr1))
-            if(auto m2 = std::dynamic_pointer_cast<MultiplyExpr>(_expr2))
-                remdup(m1, m2);
-
         if(auto p1 = std::dynamic_pointer_cast<CommutativeExpr>(_expr1))
             if(auto p2 = std::dynamic_pointer_cast<CommutativeExpr>(_expr2))
                 return p1->_exprs.size() + p1->_ids.size() + p2->_exprs.size() + p2->_ids.size() == 0;
-- 
2.43.0


From bb56731a754f8d7e38e841760d336eec619d42d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:47 +0000
Subject: [PATCH 24/62] fix: transitions of a net without places are found as
 successors

---
 include/PetriEngine/Stubborn/StubbornSet.h |  8 +++++---
 include/PetriEngine/SuccessorGenerator.h   | 12 ++++++++++++
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/PetriEngine/Stubborn/StubbornSet.h b/include/PetriEngine/Stubborn/StubbornSet.h
index f74b4ce..cf42cd9 100644
--- a/include/PetriEngine/Stubborn/StubbornSet.h
+++ b/include/PetriEngine/Stubborn/StubbornSet.h
@@ -243,11 +243,13 @@ namespace PetriEngine {
             _ordering.clear();
             memset(_enabled.get(), 0, _net.numberOfTransitions());
             memset(_stubborn.get(), 0, _net.numberOfTransitions());
-            for (uint32_t p = 0; p < _net.numberOfPlaces(); ++p) {
+            // without places, all transitions are orphans
+            const uint32_t nplaces = std::max<uint32_t>(_net.numberOfPlaces(), 1);
+            for (uint32_t p = 0; p < nplaces; ++p) {
                 // orphans are currently under "place 0" as a special case
                 if (p == 0 || _parent->marking()[p] > 0) {
-                    uint32_t t = placeToPtrs()[p];
-                    uint32_t last = placeToPtrs()[p + 1];
+                    uint32_t t = p == 0 ? 0 : placeToPtrs()[p];
+                    uint32_t last = p + 1 == nplaces ? _net.numberOfTransitions() : placeToPtrs()[p + 1];
 
                     for (; t != last; ++t) {
                         if (!checkPreset(t)) {
diff --git a/include/PetriEngine/SuccessorGenerator.h b/include/PetriEngine/SuccessorGenerator.h
index 4e8b934..f58ff55 100644
--- a/include/PetriEngine/SuccessorGenerator.h
+++ b/include/PetriEngine/SuccessorGenerator.h
@@ -85,6 +85,18 @@ protected:
 
     template<typename T>
     bool _next(Structures::State& write, T&& predicate) {
+        if (_net._nplaces == 0) {
+            // without places, all transitions are orphans
+            if (_suc_tcounter == std::numeric_limits<uint32_t>::max()) {
+                _suc_tcounter = 0;
+            }
+            for (; _suc_tcounter < _net._ntransitions; ++_suc_tcounter) {
+                if (!predicate(_suc_tcounter)) continue;
+                _fire(write, _suc_tcounter); // <-- also updated _suc_tcounter
+                return true;
+            }
+            return false;
+        }
         for (; _suc_pcounter < _net._nplaces; ++_suc_pcounter) {
             // orphans are currently under "place 0" as a special case
             if (_suc_pcounter == 0 || (*_parent).marking()[_suc_pcounter] > 0) {
-- 
2.43.0


From 104898e84604009731aee0ce5317abde8bd72936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:47 +0000
Subject: [PATCH 25/62] fix: trace abstraction refinement handles a deadlock
 query no transition of the trace touches

---
 src/PetriEngine/TAR/RangeContext.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/PetriEngine/TAR/RangeContext.cpp b/src/PetriEngine/TAR/RangeContext.cpp
index 61c61f5..17a5117 100644
--- a/src/PetriEngine/TAR/RangeContext.cpp
+++ b/src/PetriEngine/TAR/RangeContext.cpp
@@ -209,6 +209,7 @@ namespace PetriEngine {
         assert(!element->isSatisfied());
         uint64_t priority = 0;
         size_t cand = 0;
+        bool found = false;
         bool dirty = false;
         for (size_t t = 0; t < _net.numberOfTransitions(); ++t) {
             auto pre = _net.preset(t);
@@ -231,13 +232,14 @@ namespace PetriEngine {
                 sum += _uses[pre.first->place];
                 assert(!_dirty[pre.first->place]);
             }
-            if (sum > priority) {
+            if (!found || sum > priority) {
+                found = true;
                 priority = sum;
                 cand = t;
             }
         }
 
-        if (priority != 0) {
+        if (found) {
             auto pre = _net.preset(cand);
             for (; pre.first != pre.second; ++pre.first) {
                 auto& pr = _ranges.find_or_add(pre.first->place);
-- 
2.43.0


From 9bc5be00e045b858d5ed60b6456f85968d8a46ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:03 +0000
Subject: [PATCH 26/62] fix: trace abstraction refinement keeps unrelated
 places out of the ranges of a conjunction

---
 src/PetriEngine/TAR/RangeContext.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PetriEngine/TAR/RangeContext.cpp b/src/PetriEngine/TAR/RangeContext.cpp
index 17a5117..d464a17 100644
--- a/src/PetriEngine/TAR/RangeContext.cpp
+++ b/src/PetriEngine/TAR/RangeContext.cpp
@@ -267,8 +267,8 @@ namespace PetriEngine {
         for (auto& c : element->constraints()) {
             if (!disjunction) {
                 if (c._lower > _base[c._place]) {
-                    auto& added = _ranges.find_or_add(c._place);
-                    if (added._range._upper <= c._lower - 1)
+                    auto added = _ranges[c._place];
+                    if (added != nullptr && added->_range._upper <= c._lower - 1)
                         return;
                     if (!_dirty[c._place] && priority < _uses[c._place]) {
                         pr = placerange_t();
@@ -280,8 +280,8 @@ namespace PetriEngine {
                     }
                 }
                 else if (c._upper < _base[c._place]) {
-                    auto& added = _ranges.find_or_add(c._place);
-                    if (added._range._lower >= c._upper + 1)
+                    auto added = _ranges[c._place];
+                    if (added != nullptr && added->_range._lower >= c._upper + 1)
                         return;
                     if (!_dirty[c._place] && priority < _uses[c._place]) {
                         pr = placerange_t();
-- 
2.43.0


From 60b1b73d84db36867f809c6e6f03010f7c73d3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:03 +0000
Subject: [PATCH 27/62] fix: net reduction notices a deadlock that is combined
 with other conditions by until or after a nested condition

---
 include/PetriEngine/PQL/PredicateCheckers.h |  2 ++
 src/PetriEngine/PQL/PredicateCheckers.cpp   | 12 +++++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/PetriEngine/PQL/PredicateCheckers.h b/include/PetriEngine/PQL/PredicateCheckers.h
index 1935b10..5d6bc67 100644
--- a/include/PetriEngine/PQL/PredicateCheckers.h
+++ b/include/PetriEngine/PQL/PredicateCheckers.h
@@ -35,6 +35,8 @@ namespace PetriEngine { namespace PQL {
 
         void _accept(const LogicalCondition* condition) override;
 
+        void _accept(const UntilCondition* condition) override;
+
         void _accept(const DeadlockCondition* condition) override;
     };
 
diff --git a/src/PetriEngine/PQL/PredicateCheckers.cpp b/src/PetriEngine/PQL/PredicateCheckers.cpp
index 6531bad..20fe7b4 100644
--- a/src/PetriEngine/PQL/PredicateCheckers.cpp
+++ b/src/PetriEngine/PQL/PredicateCheckers.cpp
@@ -36,10 +36,20 @@ namespace PetriEngine { namespace PQL {
     }
 
     void NestedDeadlockVisitor::_accept(const LogicalCondition *condition) {
+        const bool outer = _nested_in_logical_condition;
         _nested_in_logical_condition = true;
         for (auto& c : condition->getOperands())
             Visitor::visit(this, c);
-        _nested_in_logical_condition = false;
+        _nested_in_logical_condition = outer;
+    }
+
+    void NestedDeadlockVisitor::_accept(const UntilCondition *condition) {
+        // the other operand is compared with the moment of the deadlock, as in a conjunction
+        const bool outer = _nested_in_logical_condition;
+        _nested_in_logical_condition = true;
+        Visitor::visit(this, condition->getCond1());
+        Visitor::visit(this, condition->getCond2());
+        _nested_in_logical_condition = outer;
     }
 
     void NestedDeadlockVisitor::_accept(const DeadlockCondition *condition) {
-- 
2.43.0


From da5a02c3514d36f95cb57ce7d872b34c47b877af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:14 +0000
Subject: [PATCH 28/62] fix: keep coloured transitions without bindings known
 to the queries

---
 src/PetriEngine/Colored/Unfolder.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/PetriEngine/Colored/Unfolder.cpp b/src/PetriEngine/Colored/Unfolder.cpp
index 09e3f70..7e7d5f9 100644
--- a/src/PetriEngine/Colored/Unfolder.cpp
+++ b/src/PetriEngine/Colored/Unfolder.cpp
@@ -139,19 +139,19 @@ namespace PetriEngine {
             double offset = 0;
             const Colored::Transition &transition = _builder.transitions()[transitionId];
             if (transition.skipped) return;
+            // a transition without any valid binding is still known to the queries
+            _pttransitionnames[transition.name];
             if (_fixed_point.computed() || _partition.computed()) {
                 assert(_fixed_point.variable_map().size() > transitionId);
                 assert(_symmetry.symmetries().size() > transitionId);
                 FixpointBindingGenerator gen(transition, _builder.colors(), _symmetry.symmetries()[transitionId],
                     _fixed_point.variable_map()[transitionId]);
                 size_t i = 0;
-                bool hasBindings = false;
                 for (const auto &b : gen) {
                     auto name = std::make_shared<const_string>(*transition.name + "_" + std::to_string(i++));
 
                     storeBinding(name, b);
                    
-                    hasBindings = true;
                     ptBuilder.addTransition(name, transition._player, transition._x, transition._y + offset);
                     offset += 15;
 
@@ -165,9 +165,6 @@ namespace PetriEngine {
                     _pttransitionnames[transition.name].push_back(name);
                     unfoldInhibitorArc(ptBuilder, transition.name, name);
                 }
-                if (!hasBindings) {
-                    _pttransitionnames[transition.name] = std::vector<shared_const_string>();
-                }
             } else {
                 NaiveBindingGenerator gen(transition, _builder.colors());
                 size_t i = 0;
-- 
2.43.0


From 597a1a5c71184711917ed6dd3fa37b30deff76aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:14 +0000
Subject: [PATCH 29/62] fix: line up the variable modifiers of an arc with the
 terms of its expression, and give every unbound variable its full interval

---
 include/PetriEngine/Colored/VariableVisitor.h | 90 ++++---------------
 src/PetriEngine/Colored/ForwardFixedPoint.cpp | 65 +++++---------
 2 files changed, 40 insertions(+), 115 deletions(-)

diff --git a/include/PetriEngine/Colored/VariableVisitor.h b/include/PetriEngine/Colored/VariableVisitor.h
index ec4047c..eefac6d 100644
--- a/include/PetriEngine/Colored/VariableVisitor.h
+++ b/include/PetriEngine/Colored/VariableVisitor.h
@@ -29,7 +29,7 @@
 #ifndef VARIABLESVISITOR_H
 #define VARIABLESVISITOR_H
 
-#include <stack>
+#include <algorithm>
 
 #include "Expressions.h"
 #include "Colors.h"
@@ -40,6 +40,8 @@ namespace PetriEngine {
         class VariableVisitor : public ColorExpressionVisitor {
             uint32_t _index = 0;
             uint32_t _tupleIndex = 0;
+            // the term of the sum (or difference) currently visited
+            uint32_t _term = 0;
             std::set<const Colored::Variable*>& _variables;
             std::unordered_map<uint32_t, std::vector<const Colored::ColorExpression*>>& _tuples;
             PositionVariableMap& _varPositions;
@@ -65,23 +67,9 @@ namespace PetriEngine {
                 if(_tupleIndex > 0){
                     _tuples[_tupleIndex].emplace_back(e);
                 }
-                if(_varModifiers.count(e->variable()) == 0){
-                    std::vector<std::unordered_map<uint32_t, int32_t>> newVec;
-
-                    for(auto pair : _varModifiers){
-                        for(uint32_t i = 0; i < pair.second.size()-1; i++){
-                            std::unordered_map<uint32_t, int32_t> emptyMap;
-                            newVec.push_back(emptyMap);
-                        }
-                        break;
-                    }
-                    std::unordered_map<uint32_t, int32_t> newMap;
-                    newMap[_index] = 0;
-                    newVec.push_back(newMap);
-                    _varModifiers[e->variable()] = newVec;
-                } else {
-                    _varModifiers[e->variable()].back()[_index] = 0;
-                }
+                auto& terms = _varModifiers[e->variable()];
+                if(terms.size() <= _term) terms.resize(_term + 1);
+                terms[_term][_index] = 0;
             }
 
             virtual void accept(const UserOperatorExpression* e)
@@ -101,7 +89,8 @@ namespace PetriEngine {
                 auto indexBefore = _index;
                 e->child()->visit(*this);
                 for(auto& varModifierPair : _varModifiers){
-                    for(auto& idModPair : varModifierPair.second.back()){
+                    if(varModifierPair.second.size() <= _term) continue;
+                    for(auto& idModPair : varModifierPair.second[_term]){
                         if(idModPair.first <= _index && idModPair.first >= indexBefore){
                             --idModPair.second;
                         }
@@ -119,7 +108,8 @@ namespace PetriEngine {
                 auto indexBefore = _index;
                 e->child()->visit(*this);
                 for(auto& varModifierPair : _varModifiers){
-                    for(auto& idModPair : varModifierPair.second.back()){
+                    if(varModifierPair.second.size() <= _term) continue;
+                    for(auto& idModPair : varModifierPair.second[_term]){
                         if(idModPair.first <= _index && idModPair.first >= indexBefore){
                             ++idModPair.second;
                         }
@@ -207,48 +197,24 @@ namespace PetriEngine {
 
             virtual void accept(const AddExpression* add)
             {
+                bool first = true;
                 for (const auto& elem : *add) {
-                    for (auto& pair : _varModifiers) {
-                        pair.second.emplace_back();
-                    }
-                    
+                    if (!first) ++_term;
+                    first = false;
                     _index = 0;
                     elem->visit(*this);
                 }
-
-                if (add->back()->is_number_of()) {
-                    const auto& numberOfExpr = std::static_pointer_cast<const NumberOfExpression>(add->back());
-                    if (is_last_variable_expr(*numberOfExpr->back())) {
-                        for (auto& pair : _varModifiers) {
-                            pair.second.emplace_back();
-                        }
-                    }
-                }
             }
 
             virtual void accept(const SubtractExpression* sub)
             {
-                for (auto& pair : _varModifiers) {
-                    pair.second.emplace_back();
-                }
                 _index = 0;
                 (*sub)[0]->visit(*this);
                 //We ignore the restrictions imposed by the subtraction for now
                 if(_include_subtracts){
-                    for (auto& pair : _varModifiers) {
-                        pair.second.emplace_back();
-                    }
+                    ++_term;
                     _index = 0;
                     (*sub)[1]->visit(*this);
-
-                    if ((*sub)[1]->is_number_of()) {
-                        const auto& numberOfExpr = std::static_pointer_cast<const NumberOfExpression>((*sub)[1]);
-                        if (is_last_variable_expr(*numberOfExpr->back())) {
-                            for (auto& pair : _varModifiers) {
-                                pair.second.emplace_back();
-                            }
-                        }
-                    }
                 }
             }
 
@@ -261,6 +227,9 @@ namespace PetriEngine {
             static inline void get_variables(Expression& e, std::set<const Colored::Variable*>& variables, PositionVariableMap& varPositions, VariableModifierMap& varModifierMap, std::unordered_map<uint32_t, std::vector<const Colored::ColorExpression*>>& tuples, bool includeSubtracts) {
                 VariableVisitor v(variables, varPositions, varModifierMap, tuples, includeSubtracts);
                 e.visit(v);
+                // every variable has an entry, possibly empty, for every term
+                for (auto& pair : varModifierMap)
+                    pair.second.resize(std::max<size_t>(pair.second.size(), v._term + 1));
             }
 
             static inline void get_variables(Expression& e, std::set<const Colored::Variable*>& variables, PositionVariableMap& varPositions, VariableModifierMap& varModifierMap, bool includeSubtracts) {
@@ -289,31 +258,6 @@ namespace PetriEngine {
                 get_variables(e, variables, varPositions, varModifierMap, tuples, true);
             }
 
-        private:
-            bool is_last_variable_expr(const ColorExpression& expr) const {
-                std::stack<const ColorExpression*> stack;
-                stack.push(&expr);
-
-                while (!stack.empty()) {
-                    const auto* currentExpr = stack.top();
-                    stack.pop();
-
-                    if (currentExpr->is_variable()) {
-                        return true;
-                    } else if (currentExpr->is_predecessor()) {
-                        stack.push(static_cast<const PredecessorExpression*>(currentExpr)->child().get());
-                    } else if (currentExpr->is_successor()) {
-                        stack.push(static_cast<const SuccessorExpression*>(currentExpr)->child().get());
-                    } else if (currentExpr->is_tuple()) {
-                        const auto* tupleExpr = static_cast<const TupleExpression*>(currentExpr);
-                        for (const auto& tupleElem : *tupleExpr) {
-                            stack.push(tupleElem.get());
-                        }
-                    }
-                }
-
-                return false;
-            }
         };
     }
 }
diff --git a/src/PetriEngine/Colored/ForwardFixedPoint.cpp b/src/PetriEngine/Colored/ForwardFixedPoint.cpp
index 28af9b4..7a8d4a5 100644
--- a/src/PetriEngine/Colored/ForwardFixedPoint.cpp
+++ b/src/PetriEngine/Colored/ForwardFixedPoint.cpp
@@ -40,7 +40,7 @@ namespace PetriEngine {
                 std::set<const Colored::Variable *> variables;
                 Colored::PositionVariableMap varPositions;
                 Colored::VariableModifierMap varModifiersMap;
-                Colored::VariableVisitor::get_variables(*arc.expr, variables, varPositions, varModifiersMap, true);
+                Colored::VariableVisitor::get_variables(*arc.expr, variables, varPositions, varModifiersMap, false);
 
                 res.emplace(std::make_pair(arc.place, Colored::ArcIntervals(std::move(varModifiersMap))));
             }
@@ -114,6 +114,8 @@ namespace PetriEngine {
                 }
 
                 IntervalGenerator::getVarIntervals(_transition_variable_maps[transitionId], _arcIntervals[transitionId]);
+                for (const auto &inArc : transition.input_arcs)
+                    Colored::VariableVisitor::get_variables(*inArc.expr, variables);
                 for (const auto &outArc : transition.output_arcs)
                     Colored::VariableVisitor::get_variables(*outArc.expr, variables);
                 if (transition.guard != nullptr) {
@@ -215,8 +217,8 @@ namespace PetriEngine {
                 return;
             }
             if (IntervalGenerator::getVarIntervals(_transition_variable_maps[transitionId], _arcIntervals[transitionId])) {
+                addTransitionVars(transitionId);
                 if (transition.guard != nullptr) {
-                    addTransitionVars(transitionId);
                     Colored::RestrictVisitor::restrict(*transition.guard, _transition_variable_maps[transitionId]);
                     removeInvalidVarmaps(transitionId);
 
@@ -255,7 +257,11 @@ namespace PetriEngine {
 
         void ForwardFixedPoint::addTransitionVars(size_t transition_id) {
             std::set<const Colored::Variable *> variables;
-            Colored::VariableVisitor::get_variables(*_builder.transitions()[transition_id].guard, variables);
+            const auto& transition = _builder.transitions()[transition_id];
+            if (transition.guard != nullptr)
+                Colored::VariableVisitor::get_variables(*transition.guard, variables);
+            for (const auto& arc : transition.input_arcs)
+                Colored::VariableVisitor::get_variables(*arc.expr, variables);
             for (auto* var : variables) {
                 for (auto& varmap : _transition_variable_maps[transition_id]) {
                     if (varmap.count(var) == 0) {
@@ -304,42 +310,13 @@ namespace PetriEngine {
 
 
 
-                //Apply partitioning to unbound outgoing variables such that
-                // bindings are only created for colors used in the rest of the net
-                if (_partition.computed() && !_partition.partition()[arc.place].isDiagonal()) {
-                    int i = 0;
-                    for (auto* outVar : variables) {
-                        for (auto& varMap : _transition_variable_maps[transition_id]) {
-                            if (varMap.count(outVar) == 0) {
-                                Colored::interval_vector_t varIntervalTuple;
-                                for (const auto& EqClass : _partition.partition()[arc.place].getEquivalenceClasses()) {
-                                    interval_t ci;
-                                    // TODO: this looks odd. Why are we only using the last of the intervals?
-                                    auto canonical = EqClass.intervals().back().getCanonicalInterval();
-                                    for(size_t n = 0; n < outVar->colorType->productSize(); ++n)
-                                    {
-                                        ci.addRange(canonical[i + n]);
-                                    }
-                                    varIntervalTuple.addInterval(ci);
-                                }
-                                assert(outVar->colorType->productSize() == varIntervalTuple.size());
-                                varIntervalTuple.simplify();
-                                varMap[outVar] = std::move(varIntervalTuple);
-                            }
-                        }
-                        i += outVar->colorType->productSize();
-                    }
-                } else {
-                    // Else if partitioning was not computed or diagonal
-                    // and there is a varaible which was not found on an input arc or in the guard,
-                    // we give it the full interval
-                    for (auto* var : variables) {
-                        for (auto& varmap : _transition_variable_maps[transition_id]) {
-                            if (varmap.count(var) == 0) {
-                                Colored::interval_vector_t intervalTuple;
-                                intervalTuple.addInterval(var->colorType->getFullInterval());
-                                varmap[var] = std::move(intervalTuple);
-                            }
+                // A variable which was not found on an input arc or in the guard can take any color
+                for (auto* var : variables) {
+                    for (auto& varmap : _transition_variable_maps[transition_id]) {
+                        if (varmap.count(var) == 0) {
+                            Colored::interval_vector_t intervalTuple;
+                            intervalTuple.addInterval(var->colorType->getFullInterval());
+                            varmap[var] = std::move(intervalTuple);
                         }
                     }
                 }
@@ -364,10 +341,14 @@ namespace PetriEngine {
                     }
                 }
             }
-            //If there are no variables among the out arcs of a transition
-            // and it has been activated, there is no reason to cosider it again
+            //If there are no variables in a transition and it has been activated,
+            // there is no reason to consider it again. A variable that occurs on the in arcs only
+            // may still be bound to the colors that arrive later.
             if (!transitionHasVarOutArcs) {
-                _considered[transition_id] = true;
+                std::set<const Colored::Variable *> variables;
+                for (const auto& arc : transition.input_arcs)
+                    Colored::VariableVisitor::get_variables(*arc.expr, variables);
+                _considered[transition_id] = variables.empty();
             }
         }
     }
-- 
2.43.0


From cefff8c301c99253f443a5444897457101278393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:14 +0000
Subject: [PATCH 30/62] fix: enumerate the product of several symmetric
 variable sets

---
 .../PetriEngine/Colored/BindingGenerator.h    |  1 -
 src/PetriEngine/Colored/BindingGenerator.cpp  | 35 ++++++++-----------
 2 files changed, 14 insertions(+), 22 deletions(-)

diff --git a/include/PetriEngine/Colored/BindingGenerator.h b/include/PetriEngine/Colored/BindingGenerator.h
index 099e3f5..f6435c1 100644
--- a/include/PetriEngine/Colored/BindingGenerator.h
+++ b/include/PetriEngine/Colored/BindingGenerator.h
@@ -87,7 +87,6 @@ namespace PetriEngine {
         bool _isDone;
         bool _noValidBindings;
         uint32_t _nextIndex = 0;
-        uint32_t _currentOuterId = 0;
         uint32_t _currentInnerId = 0;
         uint32_t _symmetric_vars_set = 0;
 
diff --git a/src/PetriEngine/Colored/BindingGenerator.cpp b/src/PetriEngine/Colored/BindingGenerator.cpp
index 14f6873..613ec4a 100644
--- a/src/PetriEngine/Colored/BindingGenerator.cpp
+++ b/src/PetriEngine/Colored/BindingGenerator.cpp
@@ -193,29 +193,22 @@ namespace PetriEngine {
             nextBinding();
     }
 
+    // Assigns the next choice of the symmetric variables: every combination of one set
+    // is paired with every combination of the other sets.
     bool FixpointBindingGenerator::assignSymmetricVars(){
-        if(_currentOuterId < _symmetric_vars.size()){
-            if(_currentInnerId >= _symmetric_var_combinations[_currentOuterId].size()){
-                _currentOuterId++;
-                _currentInnerId = 0;
-            }
-        } else {
+        if(_symmetric_vars.empty())
             return false;
+        size_t choice = _currentInnerId;
+        for(size_t i = 0; i < _symmetric_vars.size(); ++i){
+            const auto& combinations = _symmetric_var_combinations[i];
+            size_t j = 0;
+            for(auto var : _symmetric_vars[i])
+                _bindings[var] = &var->colorType->operator[](combinations[choice % combinations.size()][j++]);
+            choice /= combinations.size();
         }
-        uint32_t j = 0;
-        for(auto var : _symmetric_vars[_currentOuterId]){
-            _bindings[var] = &var->colorType->operator[](_symmetric_var_combinations[_currentOuterId][_currentInnerId][j]);
-            j++;
-        }
+        if(choice > 0)
+            return false;
         _currentInnerId++;
-        if(_currentInnerId >= _symmetric_var_combinations[_currentOuterId].size()){
-            if(_currentOuterId < _symmetric_vars.size()){
-                _currentOuterId++;
-                _currentInnerId = 0;
-            } else {
-                return false;
-            }
-        }
         return true;
     }
 
@@ -257,14 +250,12 @@ namespace PetriEngine {
                     if (nextIntervalBinding.size() == 0){
                         binding.second = &binding.second->operator++();
                         _currentInnerId = 0;
-                        _currentOuterId = 0;
                         assignSymmetricVars();
                         next = false;
                         break;
                     } else {
                         binding.second = binding.second->getColorType()->getColor(nextIntervalBinding.getLowerIds());
                         _currentInnerId = 0;
-                        _currentOuterId = 0;
                         assignSymmetricVars();
                         if(!nextIntervalBinding.equals(varInterval.front())){
                             next = false;
@@ -284,6 +275,8 @@ namespace PetriEngine {
                 for(auto& binding : _bindings){
                     binding.second =  binding.second->getColorType()->getColor(_var_map[_nextIndex].find(binding.first)->second.front().getLowerIds());
                 }
+                _currentInnerId = 0;
+                assignSymmetricVars();
             }
             test = eval();
         }
-- 
2.43.0


From 6edd88a9a1fe5e7cd4eb18f7bec34eceb91cc9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:14 +0000
Subject: [PATCH 31/62] fix: only treat plain variables that are exchangeable
 on every arc as symmetric

---
 include/PetriEngine/Colored/SymmetryVisitor.h | 5 ++---
 src/PetriEngine/Colored/VariableSymmetry.cpp  | 9 ++++++++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/PetriEngine/Colored/SymmetryVisitor.h b/include/PetriEngine/Colored/SymmetryVisitor.h
index a29c637..9ff5a73 100644
--- a/include/PetriEngine/Colored/SymmetryVisitor.h
+++ b/include/PetriEngine/Colored/SymmetryVisitor.h
@@ -110,14 +110,13 @@ namespace PetriEngine {
 
             virtual void accept(const NumberOfExpression* no)
             {
-                //Not entirely sure what to do if there is more than one colorExpression, but should probably return false
-                if(no->size() > 1){
+                //only plain variables can be exchanged with each other
+                if(no->size() != 1 || !(*no)[0]->is_variable()){
                     _ok = false;
                 }
                 else
                 {
                     _numbers.emplace_back(no->number());
-                    //Maybe we need to check color expression also
                 }
             }
 
diff --git a/src/PetriEngine/Colored/VariableSymmetry.cpp b/src/PetriEngine/Colored/VariableSymmetry.cpp
index 2f36a71..8663a88 100644
--- a/src/PetriEngine/Colored/VariableSymmetry.cpp
+++ b/src/PetriEngine/Colored/VariableSymmetry.cpp
@@ -41,7 +41,8 @@ namespace PetriEngine {
                         if (isEligible && numbers.size() > 1) {
                             Colored::VariableVisitor::get_variables(*inArc.expr, inArcVars);
                             //It cannot be symmetric with anything if there is only one variable
-                            if (inArcVars.size() < 2) {
+                            //and a variable that occurs twice can not be exchanged with one that occurs once
+                            if (inArcVars.size() < 2 || inArcVars.size() != numbers.size()) {
                                 continue;
                             }
                             //The variables may appear only on one input arc and one output arc
@@ -97,6 +98,12 @@ namespace PetriEngine {
                         isEligible = false;
                         break;
                     }
+                    //The variables have to be exchangeable here too
+                    const auto [symmetric, numbers] = Colored::SymmetryVisitor::eligible_for_symmetry(*outputArc.expr);
+                    if (!symmetric || numbers.size() != otherArcVars.size()) {
+                        isEligible = false;
+                        break;
+                    }
                     numArcs++;
                     //All vars were present
                     foundSomeVars = false;
-- 
2.43.0


From 8419d4bbaf887e75b0f9fc7ea6fadbd8b88bfaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:14 +0000
Subject: [PATCH 32/62] fix: keep guard restriction an over-approximation
 (modifiers, tuples, repeated variables, inequality)

---
 include/PetriEngine/Colored/Intervals.h       |  9 ++--
 src/PetriEngine/Colored/GuardRestrictor.cpp   | 45 +++++++++++++++++--
 src/PetriEngine/Colored/IntervalGenerator.cpp |  5 +--
 3 files changed, 48 insertions(+), 11 deletions(-)

diff --git a/include/PetriEngine/Colored/Intervals.h b/include/PetriEngine/Colored/Intervals.h
index 140b343..b393a7b 100644
--- a/include/PetriEngine/Colored/Intervals.h
+++ b/include/PetriEngine/Colored/Intervals.h
@@ -308,9 +308,9 @@ namespace PetriEngine {
             }
 
             static std::pair<uint32_t,uint32_t> shiftInterval(uint32_t lower, uint32_t upper, uint32_t ctSize, int32_t modifier) {
-                int32_t lower_val = ctSize + (lower + modifier);
-                int32_t upper_val = ctSize + (upper + modifier);
-                return std::make_pair(lower_val % ctSize, upper_val % ctSize);
+                //a variable can be shifted all the way around its color type, several times even
+                const uint32_t shift = (modifier % (int32_t)ctSize + (int32_t)ctSize) % (int32_t)ctSize;
+                return std::make_pair((lower + shift) % ctSize, (upper + shift) % ctSize);
             }
 
             bool hasValidIntervals() const {
@@ -555,8 +555,9 @@ namespace PetriEngine {
                 std::vector<interval_t> collectedIntervals;
                 for(auto& interval : _intervals){
                     std::vector<interval_t> newIntervals;
+                    const auto dimensions = interval.size();
                     newIntervals.push_back(std::move(interval));
-                    for(uint32_t i = 0; i < interval.size(); i++){
+                    for(uint32_t i = 0; i < dimensions; i++){
                         std::vector<interval_t> tempIntervals;
                         for(auto& interval1 : newIntervals){
                             auto shiftedInterval = shiftInterval(interval1[i]._lower, interval1[i]._upper, sizes[i], modifier);
diff --git a/src/PetriEngine/Colored/GuardRestrictor.cpp b/src/PetriEngine/Colored/GuardRestrictor.cpp
index 06954fa..acf2d4f 100644
--- a/src/PetriEngine/Colored/GuardRestrictor.cpp
+++ b/src/PetriEngine/Colored/GuardRestrictor.cpp
@@ -23,6 +23,31 @@ namespace PetriEngine{
 
         GuardRestrictor::GuardRestrictor(){}
 
+        static bool hasModifier(const VariableModifierMap& modifiers) {
+            for(const auto& variable : modifiers){
+                for(const auto& term : variable.second){
+                    for(const auto& position : term){
+                        if(position.second != 0) return true;
+                    }
+                }
+            }
+            return false;
+        }
+
+        static bool sharesVariable(const PositionVariableMap& left, const PositionVariableMap& right) {
+            for(const auto& l : left){
+                for(const auto& r : right){
+                    if(l.second == r.second) return true;
+                }
+            }
+            return false;
+        }
+
+        static void keepUnrestricted(const PositionVariableMap& left, const PositionVariableMap& right, std::set<const Colored::Variable*>& diagonalVars) {
+            for(const auto& l : left) diagonalVars.insert(l.second);
+            for(const auto& r : right) diagonalVars.insert(r.second);
+        }
+
         int32_t GuardRestrictor::getVarModifier(const std::unordered_map<uint32_t, int32_t> &modPairMap, uint32_t index) {
             int32_t modifier = 0;
             for(auto idModPair : modPairMap){
@@ -37,8 +62,7 @@ namespace PetriEngine{
         interval_t GuardRestrictor::getIntervalFromIds(const std::vector<uint32_t> &idVec, uint32_t ctSize, int32_t modifier) {
             interval_t interval;
             for(auto id : idVec){
-                int32_t val = ctSize + (id + modifier);
-                auto colorVal = val % ctSize;
+                auto colorVal = interval_vector_t::shiftInterval(id, id, ctSize, modifier).first;
                 interval.addRange(colorVal,colorVal);
             }
             return interval;
@@ -314,6 +338,11 @@ namespace PetriEngine{
                             const std::unordered_map<uint32_t, const Color*> &constantMapR,
                             std::set<const Colored::Variable*> &diagonalVars,
                             bool lessthan, bool strict) {
+            //The order of the colors says nothing about the order of their successors or predecessors
+            if(hasModifier(varModifierMapL) || hasModifier(varModifierMapR) || sharesVariable(varPositionsL, varPositionsR)){
+                keepUnrestricted(varPositionsL, varPositionsR, diagonalVars);
+                return;
+            }
 
             for(const auto &varPositionPair : varPositionsL){
                 uint32_t index = varPositionPair.first;
@@ -346,6 +375,10 @@ namespace PetriEngine{
                             const std::unordered_map<uint32_t, const Color*> &constantMapL,
                             const std::unordered_map<uint32_t, const Color*> &constantMapR,
                             std::set<const Colored::Variable*> &diagonalVars) {
+            if(sharesVariable(varPositionsL, varPositionsR)){
+                keepUnrestricted(varPositionsL, varPositionsR, diagonalVars);
+                return;
+            }
             for(const auto& varPositionPair : varPositionsL){
                 uint32_t index = varPositionPair.first;
                 if(varPositionsR.count(index)){
@@ -375,6 +408,11 @@ namespace PetriEngine{
                             const std::unordered_map<uint32_t, const Color*> &constantMapL,
                             const std::unordered_map<uint32_t, const Color*> &constantMapR,
                             std::set<const Colored::Variable*> &diagonalVars) {
+            //Tuples differ as soon as one of their elements does
+            if(sharesVariable(varPositionsL, varPositionsR) || varPositionsL.size() + constantMapL.size() > 1 || varPositionsR.size() + constantMapR.size() > 1){
+                keepUnrestricted(varPositionsL, varPositionsR, diagonalVars);
+                return;
+            }
             auto variableMapCopy = variableMap;
             restrictEquality(variableMap, varModifierMapL, varModifierMapR, varPositionsL, varPositionsR, constantMapL, constantMapR, diagonalVars);
 
@@ -424,7 +462,8 @@ namespace PetriEngine{
             if((leftColorsBefore > 1 && rightColorsBefore > 1) || leftColorsBefore == 0 || rightColorsBefore == 0){
                 //If both variables have more than one color in their interval we cannot restrict the intervals
                 //and if either side did not have any colors the varmap is not valid.
-                return;
+                variableMap[varMapIndex][var1] = variableMapCopy[varMapIndex].find(var1)->second;
+                variableMap[varMapIndex][var2] = variableMapCopy[varMapIndex].find(var2)->second;
             } else if (leftColorsBefore == 1 && rightColorsBefore == 1){
                 //if we are comparing single colors and there is an interval after equality
                 //it means the colors were equal so no interval can be kept for inequality.
diff --git a/src/PetriEngine/Colored/IntervalGenerator.cpp b/src/PetriEngine/Colored/IntervalGenerator.cpp
index 9c7cf86..d927311 100644
--- a/src/PetriEngine/Colored/IntervalGenerator.cpp
+++ b/src/PetriEngine/Colored/IntervalGenerator.cpp
@@ -27,10 +27,7 @@ namespace PetriEngine {
             assert(varPosition + varColorTypes.size() <= interval.size());
             for(uint32_t i = varPosition; i < varPosition + varColorTypes.size(); i++){
                 auto ctSize = varColorTypes[i - varPosition]->size();
-                int32_t lower_val = ctSize + (interval[i]._lower + varModifier);
-                int32_t upper_val = ctSize + (interval[i]._upper + varModifier);
-                uint32_t lower = lower_val % ctSize;
-                uint32_t upper = upper_val % ctSize;
+                const auto [lower, upper] = interval_vector_t::shiftInterval(interval[i]._lower, interval[i]._upper, ctSize, varModifier);
 
                 if(lower > upper ){
                     if(lower == upper+1){
-- 
2.43.0


From 853ec64df15eff114efc7f0cec111046331ec107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:14 +0000
Subject: [PATCH 33/62] fix: evaluate a colour constant as itself before
 applying successor or predecessor

---
 src/PetriEngine/Colored/EvaluationVisitor.cpp | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/PetriEngine/Colored/EvaluationVisitor.cpp b/src/PetriEngine/Colored/EvaluationVisitor.cpp
index b657840..8e5700c 100644
--- a/src/PetriEngine/Colored/EvaluationVisitor.cpp
+++ b/src/PetriEngine/Colored/EvaluationVisitor.cpp
@@ -17,15 +17,7 @@ namespace PetriEngine {
         }
 
         void EvaluationVisitor::accept(const UserOperatorExpression* e) {
-            if(_context.placePartition.getEquivalenceClasses().empty()){
-                _cres = e->user_operator();
-            } else {
-                std::vector<uint32_t> tupleIds;
-                e->user_operator()->getTupleId(tupleIds);
-
-                _context.placePartition.applyPartition(tupleIds);
-                _cres = e->user_operator()->getColorType()->getColor(tupleIds);
-            }
+            _cres = e->user_operator();
         }
 
         void EvaluationVisitor::accept(const SuccessorExpression* e) {
-- 
2.43.0


From e24a9afbae0fa9c3fb3768a373d51f47df2e8a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:14 +0000
Subject: [PATCH 34/62] fix: parse nested negation and n-ary conjunction in
 guards

---
 src/PetriParse/PNMLParser.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/PetriParse/PNMLParser.cpp b/src/PetriParse/PNMLParser.cpp
index bc00dd6..8456c33 100644
--- a/src/PetriParse/PNMLParser.cpp
+++ b/src/PetriParse/PNMLParser.cpp
@@ -380,7 +380,7 @@ void PNMLParser::collectColorsInTuple(rapidxml::xml_node<>* element, std::vector
 
 GuardExpression_ptr PNMLParser::parseGuardExpression(rapidxml::xml_node<>* element, bool notFlag) {
     if (strcmp(element->name(), "not") == 0) {
-        return parseGuardExpression(element->first_node(), true);
+        return parseGuardExpression(element->first_node(), !notFlag);
     }
     else if (strcmp(element->name(), "subterm") == 0 || strcmp(element->name(), "structure") == 0) {
         return parseGuardExpression(element->first_node(), notFlag);
@@ -389,11 +389,15 @@ GuardExpression_ptr PNMLParser::parseGuardExpression(rapidxml::xml_node<>* eleme
         auto right = left->next_sibling();
         if (right == nullptr)
             return parseGuardExpression(left, notFlag);
-        if (notFlag) {
-            return std::make_shared<OrExpression>(parseGuardExpression(left, true), parseGuardExpression(right, true));
-        } else {
-            return std::make_shared<AndExpression>(parseGuardExpression(left, false), parseGuardExpression(right, false));
+        GuardExpression_ptr res = parseGuardExpression(left, notFlag);
+        for (; right; right = right->next_sibling()) {
+            if (notFlag) {
+                res = std::make_shared<OrExpression>(std::move(res), parseGuardExpression(right, true));
+            } else {
+                res = std::make_shared<AndExpression>(std::move(res), parseGuardExpression(right, false));
+            }
         }
+        return res;
     } else if (strcmp(element->name(), "or") == 0) {
         auto left = element->first_node();
         auto right = left->next_sibling();
-- 
2.43.0


From 27d26100862f4058acd71433a5f5ba03b7e7959e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:14 +0000
Subject: [PATCH 35/62] fix: colour partitioning: consider all variables, split
 only when something is split, one id per class representative

---
 .../PetriEngine/Colored/PartitionBuilder.h    | 14 ++-
 src/PetriEngine/Colored/EquivalenceVec.cpp    | 13 +--
 src/PetriEngine/Colored/PartitionBuilder.cpp  | 94 ++++++++++---------
 3 files changed, 61 insertions(+), 60 deletions(-)

diff --git a/include/PetriEngine/Colored/PartitionBuilder.h b/include/PetriEngine/Colored/PartitionBuilder.h
index c4de60d..5bee7bc 100644
--- a/include/PetriEngine/Colored/PartitionBuilder.h
+++ b/include/PetriEngine/Colored/PartitionBuilder.h
@@ -53,6 +53,8 @@ namespace PetriEngine {
 
                 bool splitPartition(EquivalenceVec equivalenceVec, uint32_t placeId);
 
+                typedef std::vector<std::pair<uint32_t, const Colored::Variable*>> VariablePositions;
+
                 void handleTransition(uint32_t transitionId, uint32_t postPlaceId);
                 void handleTransition(const Transition &transitionId, const uint32_t postPlaceId, const Arc *postArc);
 
@@ -63,16 +65,18 @@ namespace PetriEngine {
                 bool checkTupleDiagonal(uint32_t placeId);
                 bool checkDiagonal(uint32_t placeId);
 
-                void handleInArcs(const Transition &transition, std::set<const Colored::Variable*> &diagonalVars, const PositionVariableMap &varPositionMap, const std::vector<PetriEngine::Colored::VariableIntervalMap> &varMaps, uint32_t postPlaceId);
+                void handleInArcs(const Transition &transition, std::set<const Colored::Variable*> &diagonalVars, const VariablePositions &varPositionMap, const std::vector<PetriEngine::Colored::VariableIntervalMap> &varMaps, uint32_t postPlaceId);
 
                 void applyNewIntervals(const Arc &inArc, const std::vector<PetriEngine::Colored::VariableIntervalMap> &varMaps);
 
-                void checkVarOnArc(const VariableModifierMap &varModifierMap, std::set<const Colored::Variable*> &diagonalVars, uint32_t placeId, bool inputArc);
+                static VariablePositions getVariables(ArcExpression &expr, std::set<const Colored::Variable*> &variables, VariableModifierMap &varModifierMap);
+
+                void checkVarOnArc(const VariableModifierMap &varModifierMap, std::set<const Colored::Variable*> &diagonalVars, uint32_t placeId, const Arc& arc, bool inputArc);
 
-                void checkVarOnInputArcs(const std::unordered_map<uint32_t,PositionVariableMap> &placeVariableMap, const PositionVariableMap &preVarPositionMap, std::set<const Colored::Variable*> &diagonalVars, uint32_t placeId);
+                void checkVarOnInputArcs(const std::unordered_map<uint32_t,VariablePositions> &placeVariableMap, const VariablePositions &preVarPositionMap, std::set<const Colored::Variable*> &diagonalVars, uint32_t placeId);
 
-                void markSharedVars(const PositionVariableMap &preVarPositionMap, const PositionVariableMap &varPositionMap, uint32_t postPlaceId, uint32_t prePlaceId);
-                void checkVarInGuard(const PositionVariableMap &preVarPositionMap, const std::set<const Colored::Variable*> &diagonalVars, uint32_t placeId);
+                void markSharedVars(const VariablePositions &preVarPositionMap, const VariablePositions &varPositionMap, uint32_t postPlaceId, uint32_t prePlaceId);
+                void checkVarInGuard(const VariablePositions &preVarPositionMap, const std::set<const Colored::Variable*> &diagonalVars, uint32_t placeId);
 
                 std::vector<VariableIntervalMap> prepareVariables(
                             const VariableModifierMap &varModifierMap,
diff --git a/src/PetriEngine/Colored/EquivalenceVec.cpp b/src/PetriEngine/Colored/EquivalenceVec.cpp
index bcb4148..d7d8784 100644
--- a/src/PetriEngine/Colored/EquivalenceVec.cpp
+++ b/src/PetriEngine/Colored/EquivalenceVec.cpp
@@ -84,30 +84,23 @@ namespace PetriEngine {
             }
         }
 
-        //Add color ids of diagonal positions as we represent partitions with diagonal postitions
-        //as a single equivalence class to save space, but they should not be partition together
+        //The representative color of the class, with the ids of the diagonal positions kept: we represent partitions
+        //with diagonal positions as a single equivalence class to save space, but they should not be partitioned together
         const uint32_t EquivalenceVec::getUniqueIdForColor(const Colored::Color *color) const {
             PetriEngine::Colored::EquivalenceClass *eqClass = _colorEQClassMap.find(color)->second;
 
             std::vector<uint32_t> colorTupleIds;
             std::vector<uint32_t> newColorTupleIds;
-            bool hasDiagonalPositions = false;
             color->getTupleId(colorTupleIds);
             for(uint32_t i = 0; i < colorTupleIds.size(); i++){
                 if(_diagonalTuplePositions[i]){
-                    hasDiagonalPositions = true;
                     newColorTupleIds.push_back(colorTupleIds[i]);
                 } else {
                     newColorTupleIds.push_back(eqClass->intervals().back().getLowerIds()[i]);
                 }
             }
 
-            if(hasDiagonalPositions){
-                return eqClass->id() + color->getColorType()->getColor(newColorTupleIds)->getId();
-            }
-
-            return eqClass->id();
-
+            return color->getColorType()->getColor(newColorTupleIds)->getId();
         }
     }
 }
diff --git a/src/PetriEngine/Colored/PartitionBuilder.cpp b/src/PetriEngine/Colored/PartitionBuilder.cpp
index 06a40ab..c9080f0 100644
--- a/src/PetriEngine/Colored/PartitionBuilder.cpp
+++ b/src/PetriEngine/Colored/PartitionBuilder.cpp
@@ -135,31 +135,40 @@ namespace PetriEngine {
             handleTransition(transition, postPlaceId, postArc);
         }
 
-        //Check if a variable appears more than once on the output arc
+        //The variables of an arc expression, with all the positions they occur at
+        PartitionBuilder::VariablePositions PartitionBuilder::getVariables(ArcExpression &expr, std::set<const Colored::Variable*> &variables, VariableModifierMap &varModifierMap) {
+            PositionVariableMap lastAtPosition;
+            Colored::VariableVisitor::get_variables(expr, variables, lastAtPosition, varModifierMap, true);
+            VariablePositions res;
+            for(const auto &varModMap : varModifierMap){
+                for(const auto &term : varModMap.second){
+                    for(const auto &position : term){
+                        res.emplace_back(position.first, varModMap.first);
+                    }
+                }
+            }
+            return res;
+        }
+
+        //Check if a variable appears more than once on the arc, is subtracted, or stands for several tokens of one color
         //If the place is does not have a product colortype mark the whole place as diagonal, otherwise only the positions
-        void PartitionBuilder::checkVarOnArc(const VariableModifierMap &varModifierMap, std::set<const Colored::Variable*> &diagonalVars, uint32_t placeId, bool inputArc){
+        void PartitionBuilder::checkVarOnArc(const VariableModifierMap &varModifierMap, std::set<const Colored::Variable*> &diagonalVars, uint32_t placeId, const Arc& arc, bool inputArc){
             for(const auto &varModMap : varModifierMap){
-                if(varModMap.second.size() > 1){
-                    uint32_t actualSize = 0;
-                    std::vector<uint32_t> positions;
-                    for(const auto &map : varModMap.second){
-                        if(!map.empty()){
-                            for(auto position : map){
-                                positions.push_back(position.first);
-                            }
-                            actualSize++;
-                        }
+                std::vector<uint32_t> positions;
+                for(const auto &map : varModMap.second){
+                    for(auto position : map){
+                        positions.push_back(position.first);
                     }
-                    if(actualSize > 1) {
-                        diagonalVars.insert(varModMap.first);
-                        if(_partition[placeId].getEquivalenceClasses().back().type()->productSize() == 1){
-                            _partition[placeId].setDiagonal(true);
-                        } else {
-                            for(auto pos : positions){
-                                if(!_partition[placeId].getDiagonalTuplePositions()[pos]){
-                                    if(inputArc) addToQueue(placeId);
-                                    _partition[placeId].setDiagonalTuplePosition(pos,true);
-                                }
+                }
+                if(positions.size() > 1 || arc.expr->is_subtraction() || (inputArc && arc.expr->weight() > varModMap.second.size())) {
+                    diagonalVars.insert(varModMap.first);
+                    if(_partition[placeId].getEquivalenceClasses().back().type()->productSize() == 1){
+                        _partition[placeId].setDiagonal(true);
+                    } else {
+                        for(auto pos : positions){
+                            if(!_partition[placeId].getDiagonalTuplePositions()[pos]){
+                                if(inputArc) addToQueue(placeId);
+                                _partition[placeId].setDiagonalTuplePosition(pos,true);
                             }
                         }
                     }
@@ -168,20 +177,24 @@ namespace PetriEngine {
         }
         //Check if the variales on this preArc also appear on other preArcs for the transition
         //and mark them as diagonal if they do
-        void PartitionBuilder::checkVarOnInputArcs(const std::unordered_map<uint32_t,PositionVariableMap> &placeVariableMap, const PositionVariableMap &preVarPositionMap, std::set<const Colored::Variable*> &diagonalVars, uint32_t placeId){
+        void PartitionBuilder::checkVarOnInputArcs(const std::unordered_map<uint32_t,VariablePositions> &placeVariableMap, const VariablePositions &preVarPositionMap, std::set<const Colored::Variable*> &diagonalVars, uint32_t placeId){
             for(const auto &placeVariables : placeVariableMap){
                 for(const auto &variable : preVarPositionMap){
                     for(const auto &varPosition : placeVariables.second){
                         if(varPosition.second == variable.second){
                             diagonalVars.insert(variable.second);
-                            if(_partition[placeId].getEquivalenceClasses().back().type()->productSize() == 1){
+                            if(_partition[placeId].isDiagonal()){
+                                //nothing left to distinguish
+                            } else if(_partition[placeId].getEquivalenceClasses().back().type()->productSize() == 1){
                                 _partition[placeId].setDiagonal(true);
                             } else if(!_partition[placeId].getDiagonalTuplePositions()[variable.first]) {
                                 addToQueue(placeId);
                                 _partition[placeId].setDiagonalTuplePosition(variable.first,  true);
                             }
 
-                            if(_partition[placeVariables.first].getEquivalenceClasses().back().type()->productSize() == 1){
+                            if(_partition[placeVariables.first].isDiagonal()){
+                                //nothing left to distinguish
+                            } else if(_partition[placeVariables.first].getEquivalenceClasses().back().type()->productSize() == 1){
                                 _partition[placeVariables.first].setDiagonal(true);
                                 addToQueue(placeVariables.first);
                             } else if(!_partition[placeVariables.first].getDiagonalTuplePositions()[varPosition.first]) {
@@ -191,18 +204,12 @@ namespace PetriEngine {
                             break;
                         }
                     }
-                    if(_partition[placeId].isDiagonal()){
-                        break;
-                    }
-                }
-                if(_partition[placeId].isDiagonal()){
-                    break;
                 }
             }
         }
         //Check if the preArc share variables with the postArc and mark diagonal if the
         //variable positions are diagonal in the post place
-        void PartitionBuilder::markSharedVars(const PositionVariableMap &preVarPositionMap, const PositionVariableMap &varPositionMap, uint32_t postPlaceId, uint32_t prePlaceId){
+        void PartitionBuilder::markSharedVars(const VariablePositions &preVarPositionMap, const VariablePositions &varPositionMap, uint32_t postPlaceId, uint32_t prePlaceId){
             for(const auto &preVar : preVarPositionMap){
                 for(const auto &postVar : varPositionMap){
                     if(preVar.second == postVar.second){
@@ -219,7 +226,7 @@ namespace PetriEngine {
             }
         }
         //Check if any of the variables on the preArc was part of a diagonal constraint in the gaurd
-        void PartitionBuilder::checkVarInGuard(const PositionVariableMap &preVarPositionMap, const std::set<const Colored::Variable*> &diagonalVars, uint32_t placeId){
+        void PartitionBuilder::checkVarInGuard(const VariablePositions &preVarPositionMap, const std::set<const Colored::Variable*> &diagonalVars, uint32_t placeId){
             for(const auto &preVar : preVarPositionMap){
                 if(diagonalVars.count(preVar.second)){
                     if(_partition[placeId].getEquivalenceClasses().back().type()->productSize() == 1){
@@ -281,14 +288,13 @@ namespace PetriEngine {
 
         void PartitionBuilder::handleTransition(const Transition &transition, const uint32_t postPlaceId, const Arc *postArc) {
             VariableModifierMap varModifierMap;
-            PositionVariableMap varPositionMap;
             std::set<const PetriEngine::Colored::Variable *> postArcVars;
             std::set<const PetriEngine::Colored::Variable *> guardVars;
             std::set<const Colored::Variable*> diagonalVars;
 
-            Colored::VariableVisitor::get_variables(*postArc->expr, postArcVars, varPositionMap, varModifierMap, true);
+            const auto varPositionMap = getVariables(*postArc->expr, postArcVars, varModifierMap);
 
-            checkVarOnArc(varModifierMap, diagonalVars, postPlaceId, false);
+            checkVarOnArc(varModifierMap, diagonalVars, postPlaceId, *postArc, postArc->input);
 
             if(transition.guard != nullptr){
                 Colored::VariableVisitor::get_variables(*transition.guard, guardVars);
@@ -317,28 +323,27 @@ namespace PetriEngine {
             }
         }
 
-        void PartitionBuilder::handleInArcs(const Transition &transition, std::set<const Colored::Variable*> &diagonalVars, const PositionVariableMap &varPositionMap, const std::vector<PetriEngine::Colored::VariableIntervalMap> &varMaps, uint32_t postPlaceId){
-            std::unordered_map<uint32_t,PositionVariableMap> placeVariableMap;
+        void PartitionBuilder::handleInArcs(const Transition &transition, std::set<const Colored::Variable*> &diagonalVars, const VariablePositions &varPositionMap, const std::vector<PetriEngine::Colored::VariableIntervalMap> &varMaps, uint32_t postPlaceId){
+            std::unordered_map<uint32_t,VariablePositions> placeVariableMap;
             for(const auto &inArc : transition.input_arcs){
                 //Hack to avoid considering dot places
                 if(_places[inArc.place].type == ColorType::dotInstance()){
                     _partition[inArc.place].setDiagonal(true);
                 }
 
-                if(_partition[inArc.place].isDiagonal()){
-                    continue;
-                }
                 VariableModifierMap preVarModifierMap;
-                PositionVariableMap preVarPositionMap;
                 std::set<const PetriEngine::Colored::Variable *> preArcVars;
-                Colored::VariableVisitor::get_variables(*inArc.expr, preArcVars, preVarPositionMap, preVarModifierMap, true);
+                const auto preVarPositionMap = getVariables(*inArc.expr, preArcVars, preVarModifierMap);
+                //The variables of a place that is diagonal already still restrict the other places
+                const bool wasDiagonal = _partition[inArc.place].isDiagonal();
                 checkVarOnInputArcs(placeVariableMap, preVarPositionMap, diagonalVars, inArc.place);
                 placeVariableMap[inArc.place] = preVarPositionMap;
+                if(wasDiagonal) continue;
                 if(checkDiagonal(inArc.place)) continue;
 
                 markSharedVars(preVarPositionMap, varPositionMap, postPlaceId, inArc.place);
                 if(checkDiagonal(inArc.place)) continue;
-                checkVarOnArc(preVarModifierMap, diagonalVars, inArc.place, true);
+                checkVarOnArc(preVarModifierMap, diagonalVars, inArc.place, inArc, true);
                 if(checkDiagonal(inArc.place)) continue;
 
                 checkVarInGuard(preVarPositionMap, diagonalVars, inArc.place);
@@ -385,7 +390,6 @@ namespace PetriEngine {
                     if(!intersection.isEmpty()){
                         _partition[placeId].push_back_Eqclass(intersection);
                         intersection.clear();
-                        split = true;
                     }
                     if(!leftSubtractEc.isEmpty()){
                         _partition[placeId].push_back_Eqclass(leftSubtractEc);
-- 
2.43.0


From e3dfb3c5989d779225b8aa28af3253fa1ccb8520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:16 +0000
Subject: [PATCH 36/62] fix: do not count the sum place of an inhibitor arc as
 one of the unfolded places

---
 src/PetriEngine/Colored/Unfolder.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/PetriEngine/Colored/Unfolder.cpp b/src/PetriEngine/Colored/Unfolder.cpp
index 7e7d5f9..b3b84a2 100644
--- a/src/PetriEngine/Colored/Unfolder.cpp
+++ b/src/PetriEngine/Colored/Unfolder.cpp
@@ -198,9 +198,6 @@ namespace PetriEngine {
                         const PetriEngine::Colored::Place& place = _builder.places()[inhibArc.place];
                         auto sumPlaceName = std::make_shared<const_string>(*place.name + "Sum");
                         ptBuilder.addPlace(sumPlaceName, place.marking.size(), place._x + 30, place._y - 30);
-                        if (_ptplacenames.count(place.name) <= 0) {
-                            _ptplacenames[place.name][place.type->size()] = sumPlaceName;
-                        }
                         placeName = _sumPlacesNames[inhibArc.place] = std::move(sumPlaceName);
                     }
                     ptBuilder.addInputArc(placeName, newname, true, inhibArc.inhib_weight);
-- 
2.43.0


From cd5a5424792f76127d22822d4cfac54182c2a610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:24 +0000
Subject: [PATCH 37/62] fix: know the colour types of all places when printing
 an explicit coloured trace

---
 src/PetriEngine/ExplicitColored/ColoredResultPrinter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/PetriEngine/ExplicitColored/ColoredResultPrinter.cpp b/src/PetriEngine/ExplicitColored/ColoredResultPrinter.cpp
index 72746a0..8c5d920 100644
--- a/src/PetriEngine/ExplicitColored/ColoredResultPrinter.cpp
+++ b/src/PetriEngine/ExplicitColored/ColoredResultPrinter.cpp
@@ -97,6 +97,11 @@ namespace PetriEngine::ExplicitColored {
 
             Colored::Multiset tokens;
             const auto& colorType = *explicitCpnBuilder.getPlaceUnderlyingColorType(place);
+            std::vector<const Colored::ColorType*> usedTypes;
+            colorType.getColortypes(usedTypes);
+            for (const auto usedType : usedTypes) {
+                builder.addColorType(usedType->getName(), usedType);
+            }
             for (const auto& [color, count] : traceTokens)
             {
                 if (color.size() > 1)
-- 
2.43.0


From 651a8e577a8000fb4d8f844d0244a5180fbc7d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:24 +0000
Subject: [PATCH 38/62] fix: attach inhibitor arcs to the transition variations
 of the colour ignorant net

---
 .../ExplicitColored/ColorIgnorantPetriNetBuilder.cpp            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PetriEngine/ExplicitColored/ColorIgnorantPetriNetBuilder.cpp b/src/PetriEngine/ExplicitColored/ColorIgnorantPetriNetBuilder.cpp
index 1e8cd9b..e8a778c 100644
--- a/src/PetriEngine/ExplicitColored/ColorIgnorantPetriNetBuilder.cpp
+++ b/src/PetriEngine/ExplicitColored/ColorIgnorantPetriNetBuilder.cpp
@@ -162,7 +162,7 @@ namespace PetriEngine::ExplicitColored {
                 _builder.addInputArc(place, transition, true, weight);
             } else {
                 for (size_t i = 0; i < transitionVariationCountIt->second.size(); i++) {
-                    _builder.addInputArc(place, transition + "___" + std::to_string(i), true, weight);
+                    _builder.addInputArc(place, i == 0 ? transition : transition + "___" + std::to_string(i + 1), true, weight);
                 }
             }
         }
-- 
2.43.0


From 9859b548620aa89f9c161852e979fce128f291db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:51 +0000
Subject: [PATCH 39/62] fix: compile constant tuples of explicit coloured arcs
 with the colour type of each position, without iterating over a growing
 vector

---
 src/PetriEngine/ExplicitColored/ArcCompiler.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/PetriEngine/ExplicitColored/ArcCompiler.cpp b/src/PetriEngine/ExplicitColored/ArcCompiler.cpp
index 785a390..d400017 100644
--- a/src/PetriEngine/ExplicitColored/ArcCompiler.cpp
+++ b/src/PetriEngine/ExplicitColored/ArcCompiler.cpp
@@ -693,7 +693,9 @@ namespace PetriEngine::ExplicitColored {
         std::vector<std::unique_ptr<CompiledArcExpression>*> waiting;
         waiting.push_back(&top);
 
-        for (const auto next : waiting) {
+        // the list grows while it is processed
+        for (size_t waitingIndex = 0; waitingIndex < waiting.size(); waitingIndex++) {
+            const auto next = waiting[waitingIndex];
             if (const auto expr = dynamic_cast<ArcExpressionAddition*>(next->get())) {
                 waiting.push_back(&expr->getLhs());
                 waiting.push_back(&expr->getRhs());
@@ -710,12 +712,13 @@ namespace PetriEngine::ExplicitColored {
 
                     bool hasVariable = false;
                     std::vector<Color_t> newColorSequence;
-                    for (const auto& color : colorSequence) {
+                    for (size_t colorIndex = 0; colorIndex < colorSequence.size(); colorIndex++) {
+                        const auto& color = colorSequence[colorIndex];
                         if (color.isVariable) {
                             hasVariable = true;
                             break;
                         }
-                        newColorSequence.push_back(addColorOffset( color.value.color, color.offset, expr->getColorMaxes()[i]));
+                        newColorSequence.push_back(addColorOffset( color.value.color, color.offset, expr->getColorMaxes()[colorIndex]));
                     }
                     if (!hasVariable) {
                         constantMultiSet.addCount(ColorSequence { newColorSequence, expr->getColorMaxes() }, expr->getSignedCount());
@@ -749,12 +752,13 @@ namespace PetriEngine::ExplicitColored {
     }
 
     void ArcCompiler::preCalculate(std::unique_ptr<CompiledArcExpression> &top) {
-        std::vector<std::unique_ptr<CompiledArcExpression>*> waiting;
-        waiting.push_back(&top);
         bool appliedOptimization = true;
         while (appliedOptimization) {
             appliedOptimization = false;
-            for (const auto next : waiting) {
+            // replacing an expression ends the ones below it, so start over from the top
+            std::vector<std::unique_ptr<CompiledArcExpression>*> waiting { &top };
+            for (size_t waitingIndex = 0; waitingIndex < waiting.size() && !appliedOptimization; waitingIndex++) {
+                const auto next = waiting[waitingIndex];
                 if (const auto expr = dynamic_cast<ArcExpressionAddition*>(next->get())) {
                     const auto lhs = dynamic_cast<ArcExpressionConstant*>(expr->getLhs().get());
                     const auto rhs = dynamic_cast<ArcExpressionConstant*>(expr->getRhs().get());
-- 
2.43.0


From f6bf0aa4b19d68a006a7d146e5db5f2b6fdc93f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:51 +0000
Subject: [PATCH 40/62] fix: no arcs of weight zero in the colour ignorant net

---
 .../ExplicitColored/ColorIgnorantPetriNetBuilder.cpp      | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/PetriEngine/ExplicitColored/ColorIgnorantPetriNetBuilder.cpp b/src/PetriEngine/ExplicitColored/ColorIgnorantPetriNetBuilder.cpp
index e8a778c..8c8481a 100644
--- a/src/PetriEngine/ExplicitColored/ColorIgnorantPetriNetBuilder.cpp
+++ b/src/PetriEngine/ExplicitColored/ColorIgnorantPetriNetBuilder.cpp
@@ -149,10 +149,14 @@ namespace PetriEngine::ExplicitColored {
             for (const auto& [transitionName, transitionStore] : _transitions) {
                 _builder.addTransition(transitionName, 0, 0, 0);
                 for (const auto& [place, arcExpr] : transitionStore.inputs) {
-                    _builder.addInputArc(place, transitionName, false, arcExpr->getMinimalMarkingCount());
+                    if (arcExpr->getMinimalMarkingCount() > 0) {
+                        _builder.addInputArc(place, transitionName, false, arcExpr->getMinimalMarkingCount());
+                    }
                 }
                 for (const auto& [arcExpr, place] : transitionStore.outputs) {
-                    _builder.addOutputArc(transitionName, place, arcExpr->getMinimalMarkingCount());
+                    if (arcExpr->getMinimalMarkingCount() > 0) {
+                        _builder.addOutputArc(transitionName, place, arcExpr->getMinimalMarkingCount());
+                    }
                 }
             }
         }
-- 
2.43.0


From 85770a4e2f7ecee2b54aeafb9b3da113c93286b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:55 +0000
Subject: [PATCH 41/62] fix: colour ignorant LP does not decide fireability
 queries when a transition has no input arcs

---
 .../ExplicitColored/ExplicitColoredModelChecker.cpp        | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/PetriEngine/ExplicitColored/ExplicitColoredModelChecker.cpp b/src/PetriEngine/ExplicitColored/ExplicitColoredModelChecker.cpp
index 3cc4d9b..56e3b1f 100644
--- a/src/PetriEngine/ExplicitColored/ExplicitColoredModelChecker.cpp
+++ b/src/PetriEngine/ExplicitColored/ExplicitColoredModelChecker.cpp
@@ -100,6 +100,13 @@ namespace PetriEngine::ExplicitColored {
             return Result::UNKNOWN;
         }
         if (hasFireability.getReturnValue()) {
+            //Without input arcs, fireability is simplified to true in the color ignorant net, though bindings may be missing
+            for (uint32_t t = 0; t < qnet->numberOfTransitions(); ++t) {
+                const auto preset = qnet->preset(t);
+                if (preset.first == preset.second) {
+                    return Result::UNKNOWN;
+                }
+            }
             return checkFireabilityColorIgnorantLP(context, queries, builder, qnet, options);
         }
         return checkCardinalityColorIgnorantLP(context, queries, builder, qnet, qm0, options);
-- 
2.43.0


From 31c544e6aef25b90d1861fcdfc759c33e7fa7c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:21 +0000
Subject: [PATCH 42/62] fix: copying a query keeps the constants and places of
 sums and products, and copies unary minus

---
 .../ExplicitColored/Visitors/ConditionCopyVisitor.h    | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/PetriEngine/ExplicitColored/Visitors/ConditionCopyVisitor.h b/include/PetriEngine/ExplicitColored/Visitors/ConditionCopyVisitor.h
index 5d2623c..216dc93 100644
--- a/include/PetriEngine/ExplicitColored/Visitors/ConditionCopyVisitor.h
+++ b/include/PetriEngine/ExplicitColored/Visitors/ConditionCopyVisitor.h
@@ -239,6 +239,10 @@ namespace PetriEngine::ExplicitColored {
 
         void _accept(const PQL::PlusExpr *element) override {
             std::vector<PQL::Expr_ptr> copiedExpressions;
+            copiedExpressions.push_back(std::make_shared<PQL::LiteralExpr>(element->constant()));
+            for (const auto& place : element->places()) {
+                copiedExpressions.push_back(std::make_shared<PQL::UnfoldedIdentifierExpr>(place.second, place.first));
+            }
             for (const auto& expr : element->expressions()) {
                 visit(this, expr);
                 copiedExpressions.push_back(_copiedExpr);
@@ -248,6 +252,10 @@ namespace PetriEngine::ExplicitColored {
 
         void _accept(const PQL::MultiplyExpr *element) override {
             std::vector<PQL::Expr_ptr> copiedExpressions;
+            copiedExpressions.push_back(std::make_shared<PQL::LiteralExpr>(element->constant()));
+            for (const auto& place : element->places()) {
+                copiedExpressions.push_back(std::make_shared<PQL::UnfoldedIdentifierExpr>(place.second, place.first));
+            }
             for (const auto& expr : element->expressions()) {
                 visit(this, expr);
                 copiedExpressions.push_back(_copiedExpr);
@@ -256,7 +264,7 @@ namespace PetriEngine::ExplicitColored {
         }
 
         void _accept(const PQL::MinusExpr *element) override {
-            visit(this, element);
+            visit(this, (*element)[0]);
             _copiedExpr = std::make_shared<PQL::MinusExpr>(_copiedExpr);
         }
 
-- 
2.43.0


From 170a913fd03db8e63372d6eff7e890522e86770f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:21 +0000
Subject: [PATCH 43/62] fix: accept && in textual queries

---
 src/PetriEngine/PQL/PQLQueryTokens.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PetriEngine/PQL/PQLQueryTokens.l b/src/PetriEngine/PQL/PQLQueryTokens.l
index 8f9c384..1c2bd35 100644
--- a/src/PetriEngine/PQL/PQLQueryTokens.l
+++ b/src/PetriEngine/PQL/PQLQueryTokens.l
@@ -56,7 +56,7 @@ letter        [a-zA-Z_]
 {letter}({letter}|{digit})* {SAVE_TOKEN; return ID;}
 {digit}+          {SAVE_TOKEN; return INT;}
 (\"(\\.|[^"])*\") {SAVE_QUOTED_TOKEN; return ID;}
-"&"|"&"?					{return TOKEN(AND);}
+"&""&"?						{return TOKEN(AND);}
 "|""|"?						{return TOKEN(OR);}
 "!"							{return TOKEN(NOT);}
 "=="						{return TOKEN(EQUAL);}
-- 
2.43.0


From 64d4541be1c9e08e6280f92ba3d08744f6c9207d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:21 +0000
Subject: [PATCH 44/62] fix: parenthesise quantifiers, until, unary minus and
 negated conjunctions in printed queries

---
 src/PetriEngine/PQL/QueryPrinter.cpp | 51 ++++++++++++++++++----------
 1 file changed, 33 insertions(+), 18 deletions(-)

diff --git a/src/PetriEngine/PQL/QueryPrinter.cpp b/src/PetriEngine/PQL/QueryPrinter.cpp
index cf86e47..2448f72 100644
--- a/src/PetriEngine/PQL/QueryPrinter.cpp
+++ b/src/PetriEngine/PQL/QueryPrinter.cpp
@@ -74,7 +74,7 @@ namespace PetriEngine {
 
         void QueryPrinter::_accept(const CompareConjunction *element) {
             os << "(";
-            if (element->isNegated()) os << "not";
+            if (element->isNegated()) os << "not (";
             bool first = true;
             for (const auto &cons : *element) {
                 if (!first) os << " and ";
@@ -86,6 +86,7 @@ namespace PetriEngine {
                     os << "(" << cons._upper << " >= " << *cons._name << ")";
                 first = false;
             }
+            if (element->isNegated()) os << ")";
             os << ")";
         }
 
@@ -105,23 +106,27 @@ namespace PetriEngine {
         }
 
         void QueryPrinter::_accept(const EFCondition *condition) {
-            os << "EF ";
+            os << "(EF ";
             Visitor::visit(this, (*condition)[0]);
+            os << ")";
         }
 
         void QueryPrinter::_accept(const EGCondition *condition) {
-            os << "EG ";
+            os << "(EG ";
             Visitor::visit(this, (*condition)[0]);
+            os << ")";
         }
 
         void QueryPrinter::_accept(const AGCondition *condition) {
-            os << "AG ";
+            os << "(AG ";
             Visitor::visit(this, (*condition)[0]);
+            os << ")";
         }
 
         void QueryPrinter::_accept(const AFCondition *condition) {
-            os << "AF ";
+            os << "(AF ";
             Visitor::visit(this, (*condition)[0]);
+            os << ")";
         }
 
         void QueryPrinter::_accept(const AllPaths* condition)
@@ -143,56 +148,65 @@ namespace PetriEngine {
         }
 
         void QueryPrinter::_accept(const EXCondition *condition) {
-            os << "EX ";
+            os << "(EX ";
             Visitor::visit(this, (*condition)[0]);
+            os << ")";
         }
 
         void QueryPrinter::_accept(const AXCondition *condition) {
-            os << "AX ";
+            os << "(AX ";
             Visitor::visit(this, (*condition)[0]);
+            os << ")";
         }
 
         void QueryPrinter::_accept(const EUCondition *condition) {
-            os << "E ";
+            os << "(E ";
             _accept((UntilCondition*) condition);
+            os << ")";
         }
 
         void QueryPrinter::_accept(const AUCondition *condition) {
-            os << "A ";
+            os << "(A ";
             _accept((UntilCondition*) condition);
+            os << ")";
         }
 
         void QueryPrinter::_accept(const ACondition *condition) {
-            os << "A ";
+            os << "(A ";
             Visitor::visit(this, (*condition)[0]);
+            os << ")";
         }
 
         void QueryPrinter::_accept(const ECondition *condition) {
-            os << "E ";
+            os << "(E ";
             Visitor::visit(this, (*condition)[0]);
+            os << ")";
         }
 
         void QueryPrinter::_accept(const GCondition *condition) {
-            os << "G ";
+            os << "(G ";
             Visitor::visit(this, (*condition)[0]);
+            os << ")";
         }
 
         void QueryPrinter::_accept(const FCondition *condition) {
-            os << "F ";
+            os << "(F ";
             Visitor::visit(this, (*condition)[0]);
+            os << ")";
         }
 
         void QueryPrinter::_accept(const XCondition *condition) {
-            os << "X ";
+            os << "(X ";
             Visitor::visit(this, (*condition)[0]);
+            os << ")";
         }
 
         void QueryPrinter::_accept(const UntilCondition *condition) {
-            os << "(";
+            os << "((";
             Visitor::visit(this, condition->getCond1());
-            os << " U ";
+            os << ") U (";
             Visitor::visit(this, condition->getCond2());
-            os << ")";
+            os << "))";
         }
 
         void QueryPrinter::_accept(const UnfoldedFireableCondition *element) {
@@ -302,8 +316,9 @@ namespace PetriEngine {
         }
 
         void QueryPrinter::_accept(const MinusExpr *element) {
-            os << "-";
+            os << "(-";
             Visitor::visit(this, (*element)[0]);
+            os << ")";
         }
 
         void QueryPrinter::_accept(const SubtractExpr *element) {
-- 
2.43.0


From f7df7da0a0122e17eab97e6c4d636d500fc52dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:21 +0000
Subject: [PATCH 45/62] fix: read path quantifiers of binary queries like those
 of XML queries, so that LTL queries are accepted

---
 src/PetriParse/QueryBinaryParser.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/PetriParse/QueryBinaryParser.cpp b/src/PetriParse/QueryBinaryParser.cpp
index 2c982fe..f6685d1 100644
--- a/src/PetriParse/QueryBinaryParser.cpp
+++ b/src/PetriParse/QueryBinaryParser.cpp
@@ -189,27 +189,27 @@ Condition_ptr QueryBinaryParser::parseQuery(std::istream& binary, const std::vec
             if (q == Quantifier::EMPTY)
                 return std::make_shared<XCondition>(cond1);
             else if(q == Quantifier::A)
-                return std::make_shared<AXCondition>(cond1);
+                return std::make_shared<ACondition>(std::make_shared<XCondition>(cond1));
             else
-                return std::make_shared<EXCondition>(cond1);
+                return std::make_shared<ECondition>(std::make_shared<XCondition>(cond1));
         }
         else if(p == Path::F)
         {
             if (q == Quantifier::EMPTY)
                 return std::make_shared<FCondition>(cond1);
             else if(q == Quantifier::A)
-                return std::make_shared<AFCondition>(cond1);
+                return std::make_shared<ACondition>(std::make_shared<FCondition>(cond1));
             else
-                return std::make_shared<EFCondition>(cond1);
+                return std::make_shared<ECondition>(std::make_shared<FCondition>(cond1));
         }
         else if(p == Path::G)
         {
             if (q == Quantifier::EMPTY)
                 return std::make_shared<GCondition>(cond1);
             else if(q == Quantifier::A)
-                return std::make_shared<AGCondition>(cond1);
+                return std::make_shared<ACondition>(std::make_shared<GCondition>(cond1));
             else
-                return std::make_shared<EGCondition>(cond1);
+                return std::make_shared<ECondition>(std::make_shared<GCondition>(cond1));
         }
         else if(p == Path::U)
         {
@@ -222,9 +222,9 @@ Condition_ptr QueryBinaryParser::parseQuery(std::istream& binary, const std::vec
             if (q == Quantifier::EMPTY)
                 return std::make_shared<UntilCondition>(cond1, cond2);
             else if(q == Quantifier::A)
-                return std::make_shared<AUCondition>(cond1, cond2);
+                return std::make_shared<ACondition>(std::make_shared<UntilCondition>(cond1, cond2));
             else
-                return std::make_shared<EUCondition>(cond1, cond2);
+                return std::make_shared<ECondition>(std::make_shared<UntilCondition>(cond1, cond2));
         }
         else if(p == Path::PControl)
         {
-- 
2.43.0


From 3b819998bff74d9be882d67b743635aee0ce9e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:21 +0000
Subject: [PATCH 46/62] fix: merge only comparisons that restrict a place into
 a compare conjunction

---
 src/PetriEngine/PQL/Expressions.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/PetriEngine/PQL/Expressions.cpp b/src/PetriEngine/PQL/Expressions.cpp
index a37bd68..9f00cbe 100644
--- a/src/PetriEngine/PQL/Expressions.cpp
+++ b/src/PetriEngine/PQL/Expressions.cpp
@@ -42,6 +42,22 @@ namespace PetriEngine {
     namespace PQL {
 
         /** FOR COMPILING AND CONSTRUCTING LOGICAL OPERATORS **/
+        // a comparison of a place with a constant is a constraint of a CompareConjunction
+        // only if it restricts the place to a non-empty range of token counts.
+        static bool isProperConstraint(const CompareCondition* comp)
+        {
+            const bool inverted = dynamic_cast<UnfoldedIdentifierExpr*>((*comp)[0].get()) == nullptr;
+            EvaluationContext context;
+            const int64_t val = PetriEngine::PQL::evaluate((*comp)[inverted ? 0 : 1].get(), context);
+            if(val < 0 || val >= std::numeric_limits<int32_t>::max())
+                return false;
+            if(dynamic_cast<const LessThanOrEqualCondition*>(comp))
+                return !inverted || val > 0;
+            if(dynamic_cast<const LessThanCondition*>(comp))
+                return inverted || val > 0;
+            return true;
+        }
+
         template<typename T>
         void tryMerge(std::vector<Condition_ptr>& _conds, const Condition_ptr& ptr, bool aggressive = false)
         {
@@ -63,7 +79,8 @@ namespace PetriEngine {
                 else
                 {
                     if(! ((dynamic_cast<UnfoldedIdentifierExpr*>((*comp)[0].get()) && (*comp)[1]->placeFree()) ||
-                          (dynamic_cast<UnfoldedIdentifierExpr*>((*comp)[1].get()) && (*comp)[0]->placeFree())))
+                          (dynamic_cast<UnfoldedIdentifierExpr*>((*comp)[1].get()) && (*comp)[0]->placeFree())) ||
+                       !isProperConstraint(comp.get()))
                     {
                         _conds.emplace_back(ptr);
                         return;
-- 
2.43.0


From a21b83dafb0bd428cd9ec842c060c0208dc32562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:05 +0000
Subject: [PATCH 47/62] fix: keep the player of transitions without input arcs

makePetriNet recorded the player only for transitions that consume from
a place; an environment transition without input arcs became
controllable in the compiled net.
---
 src/PetriEngine/PetriNetBuilder.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PetriEngine/PetriNetBuilder.cpp b/src/PetriEngine/PetriNetBuilder.cpp
index 6320c33..63dca13 100644
--- a/src/PetriEngine/PetriNetBuilder.cpp
+++ b/src/PetriEngine/PetriNetBuilder.cpp
@@ -299,6 +299,7 @@ namespace PetriEngine {
                 // ALL have to be inhibitor, if any. Otherwise not orphan
 
                 if(trans.skip) continue;
+                net->_controllable[freetrans] = trans._player == 0;
                 net->_transitions[freetrans].inputs = freeinv;
 
                 // add inhibitors
-- 
2.43.0


From ef39535dfdf8e4b0c07d6c1c5004fcf6ee1acb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:05 +0000
Subject: [PATCH 48/62] fix: transport arcs are never inhibitor arcs

parseTransportArc left Arc::inhib uninitialised.
---
 include/PetriParse/PNMLParser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/PetriParse/PNMLParser.h b/include/PetriParse/PNMLParser.h
index 3b841c8..49882f5 100644
--- a/include/PetriParse/PNMLParser.h
+++ b/include/PetriParse/PNMLParser.h
@@ -39,7 +39,7 @@ class PNMLParser {
         std::string source,
         target;
         int weight;
-        bool inhib;
+        bool inhib = false;
         PetriEngine::Colored::ArcExpression_ptr expr;
     };
     typedef std::vector<Arc> ArcList;
-- 
2.43.0


From 6d7ba7528246848e0dbd134141ea58b9db905fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:42 +0000
Subject: [PATCH 49/62] fix: written coloured nets keep integer-range
 constants, dots in products and well-formed text

Constants of an integer range were written as user operators, which are
looked up by name alone and so in the wrong range; a dot component of a
product ended the list of components; a dot in a tuple was written as a
user operator; and a stray '>' followed finiteintrangeconstant.
---
 src/PetriEngine/Colored/PnmlWriter.cpp           | 10 ++++------
 .../Colored/PnmlWriterColorExprVisitor.cpp       | 16 ++++++++++++++--
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/PetriEngine/Colored/PnmlWriter.cpp b/src/PetriEngine/Colored/PnmlWriter.cpp
index d14fb9b..42f8351 100644
--- a/src/PetriEngine/Colored/PnmlWriter.cpp
+++ b/src/PetriEngine/Colored/PnmlWriter.cpp
@@ -142,10 +142,6 @@ namespace PetriEngine {
                 if (type->productSize() > 1) {
                     throw base_error("Nested products, aborting writing PNML");
                 }
-                if (name == "dot") {
-                    _out << increaseTabs() << "<dot/>\n";
-                    break;
-                }
                 _out << (first ? increaseTabs() : getTabs()) << "<usersort declaration=\"" << name << "\"/>" << "\n";
                 first = false;
             }
@@ -298,7 +294,9 @@ namespace PetriEngine {
                 } else {
                     _out << getTabs() << "<subterm>" << "\n";
                 }
-                if (is_number(color->toString())) {
+                if (color->getColorType() == ColorType::dotInstance()) {
+                    _out << increaseTabs() << "<dotconstant/>\n";
+                } else if (is_number(color->toString())) {
                     const std::string& start = color->getColorType()->operator[](size_t{0}).getColorName();
                     const std::string& end = color->getColorType()->operator[](
                             color->getColorType()->size() - 1).getColorName();
@@ -330,7 +328,7 @@ namespace PetriEngine {
                     const std::string& start = c->getColorType()->operator[](size_t{0}).getColorName();
                     const std::string& end = c->getColorType()->operator[](
                             c->getColorType()->size() - 1).getColorName();
-                    _out << increaseTabs() << "<finiteintrangeconstant value=\"" << c->getColorName() << "\">\n>";
+                    _out << increaseTabs() << "<finiteintrangeconstant value=\"" << c->getColorName() << "\">\n";
                     _out << increaseTabs() << "<finiteintrange start=\"" << start << "\" end=\"" << end << "\"/>\n";
                     _out << decreaseTabs() << "</finiteintrangeconstant>\n";
                 } else {
diff --git a/src/PetriEngine/Colored/PnmlWriterColorExprVisitor.cpp b/src/PetriEngine/Colored/PnmlWriterColorExprVisitor.cpp
index 051afeb..39e9788 100644
--- a/src/PetriEngine/Colored/PnmlWriterColorExprVisitor.cpp
+++ b/src/PetriEngine/Colored/PnmlWriterColorExprVisitor.cpp
@@ -5,6 +5,9 @@
 #include "PetriEngine/Colored/PnmlWriterColorExprVisitor.h"
 #include "PetriEngine/Colored/Expressions.h"
 
+#include <algorithm>
+#include <cctype>
+
 namespace PetriEngine::Colored {
     void writeExpressionToPnml(std::ostream &out, uint32_t tabs, const Expression &expr) {
         PnmlWriterColorExprVisitor visitor(out, tabs);
@@ -20,8 +23,17 @@ namespace PetriEngine::Colored {
     }
 
     void PnmlWriterColorExprVisitor::accept(const UserOperatorExpression *e) {
-        _out << increaseTabs() << "<useroperator declaration=\"" << e->user_operator()->getColorName()
-             << "\"/>\n";
+        const auto *color = e->user_operator();
+        const auto &name = color->getColorName();
+        if (!name.empty() && std::all_of(name.begin(), name.end(), [](unsigned char c) { return std::isdigit(c); })) {
+            const auto *type = color->getColorType();
+            _out << increaseTabs() << "<finiteintrangeconstant value=\"" << name << "\">\n";
+            _out << increaseTabs() << "<finiteintrange start=\"" << (*type)[size_t{0}].getColorName()
+                 << "\" end=\"" << (*type)[type->size() - 1].getColorName() << "\"/>\n";
+            _out << decreaseTabs() << "</finiteintrangeconstant>\n";
+        } else {
+            _out << increaseTabs() << "<useroperator declaration=\"" << name << "\"/>\n";
+        }
     }
 
     void PnmlWriterColorExprVisitor::accept(const SuccessorExpression *e) {
-- 
2.43.0


From 377b71b71c19e3f0cfc1852b21321c0b4af81e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:42 +0000
Subject: [PATCH 50/62] fix: write the weight of coloured inhibitor arcs where
 it is read back

---
 src/PetriEngine/Colored/PnmlWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PetriEngine/Colored/PnmlWriter.cpp b/src/PetriEngine/Colored/PnmlWriter.cpp
index 42f8351..bc5dca1 100644
--- a/src/PetriEngine/Colored/PnmlWriter.cpp
+++ b/src/PetriEngine/Colored/PnmlWriter.cpp
@@ -429,7 +429,7 @@ namespace PetriEngine {
                 shared_const_string target = _builder._transitions[inhibitor.transition].name;
                 std::string id = *source + "_to_" + *target;
                 _out << getTabs() << "<arc id=\"" << id << "\" source=\"" << *source << "\" target=\"" << *target
-                     << "\" type=\"inhibitor" << "\">\n";
+                     << "\" type=\"inhibitor\" weight=\"" << inhibitor.inhib_weight << "\">\n";
                 _out << increaseTabs() << "<name>\n";
                 _out << increaseTabs() << "<text>" << id << "</text>\n";
                 _out << decreaseTabs() << "</name>\n";
-- 
2.43.0


From f66da96b3de1e79e2bc072a0edd3e7fda663c1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:42 +0000
Subject: [PATCH 51/62] fix: read 'all' of a product sort

The colours of a product are not stored in the sort, so iterating over
it yielded nothing and the parser read past the end.
---
 src/PetriParse/PNMLParser.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/PetriParse/PNMLParser.cpp b/src/PetriParse/PNMLParser.cpp
index 8456c33..e3ad569 100644
--- a/src/PetriParse/PNMLParser.cpp
+++ b/src/PetriParse/PNMLParser.cpp
@@ -524,8 +524,19 @@ std::vector<ColorExpression_ptr> PNMLParser::parseColorExpression(rapidxml::xml_
     } else if (strcmp(element->name(), "all") == 0) {
         auto* sort = parseUserSort(element);
         std::vector<ColorExpression_ptr> colors;
-        for(auto& c : *sort)
-            colors.emplace_back(std::make_shared<UserOperatorExpression>(&c));
+        for(size_t i = 0; i < sort->size(); ++i)
+        {
+            const auto& c = (*sort)[i];
+            if(c.isTuple())
+            {
+                std::vector<ColorExpression_ptr> constituents;
+                for(auto* tc : c.getTupleColors())
+                    constituents.emplace_back(std::make_shared<UserOperatorExpression>(tc));
+                colors.emplace_back(std::make_shared<TupleExpression>(std::move(constituents), colorTypes));
+            }
+            else
+                colors.emplace_back(std::make_shared<UserOperatorExpression>(&c));
+        }
         return colors;
     }
     throw base_error("Unhandled color type");
-- 
2.43.0


From c234d56dd54a35d285848fdf48fa427abf7a4ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:55 +0000
Subject: [PATCH 52/62] fix: coloured rule DeadTransitions removes a place only
 when all of its consumers are dead

It compared the number of dead consumers with the number of producers.
---
 src/PetriEngine/Colored/Reduction/RedRuleDeadTransitions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PetriEngine/Colored/Reduction/RedRuleDeadTransitions.cpp b/src/PetriEngine/Colored/Reduction/RedRuleDeadTransitions.cpp
index 3151304..1feed28 100644
--- a/src/PetriEngine/Colored/Reduction/RedRuleDeadTransitions.cpp
+++ b/src/PetriEngine/Colored/Reduction/RedRuleDeadTransitions.cpp
@@ -88,7 +88,7 @@ namespace PetriEngine::Colored::Reduction {
 
             if (!ok || notenabled.empty()) continue;
 
-            bool skipplace = (notenabled.size() == place._pre.size() && !inQuery.isPlaceUsed(p));
+            bool skipplace = (notenabled.size() == place._post.size() && !inQuery.isPlaceUsed(p));
 
             for (uint32_t cons: notenabled) {
                 if (inQuery.isTransitionUsed(cons))
-- 
2.43.0


From b48bf3cbf0e0ae24ed6a23a376f48a9d21beac9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:31 +0000
Subject: [PATCH 53/62] fix: coloured pre-agglomeration only matches arcs of
 plain variables and of equal weight

The colours moved by producer and consumer are matched by identifying
their variables, which is wrong when an arc has constants, successors or
predecessors. With different weights the merged transitions used
unrelated variables in arcs and guard and put back too many tokens.
---
 .../Reduction/RedRulePreAgglomeration.cpp     | 27 +++++++++++++++----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/PetriEngine/Colored/Reduction/RedRulePreAgglomeration.cpp b/src/PetriEngine/Colored/Reduction/RedRulePreAgglomeration.cpp
index 65ad333..ebdbe27 100644
--- a/src/PetriEngine/Colored/Reduction/RedRulePreAgglomeration.cpp
+++ b/src/PetriEngine/Colored/Reduction/RedRulePreAgglomeration.cpp
@@ -16,6 +16,25 @@ namespace PetriEngine::Colored::Reduction {
         return queryType != CTL && !preserveStutter;
     }
 
+    // The colors produced and consumed are matched by identifying variables,
+    // so the arcs may only move (tuples of) plain variables, or dots.
+    static bool movesVariables(const ArcExpression& expr) {
+        if (auto* add = dynamic_cast<const AddExpression*>(&expr))
+            return add->size() == 1 && movesVariables(*(*add)[0]);
+        if (auto* scalar = dynamic_cast<const ScalarProductExpression*>(&expr))
+            return movesVariables(*scalar->child());
+        auto* number = dynamic_cast<const NumberOfExpression*>(&expr);
+        if (number == nullptr || number->size() != 1)
+            return false;
+        auto* color = (*number)[0].get();
+        if (auto* tuple = dynamic_cast<const TupleExpression*>(color))
+            return std::all_of(tuple->begin(), tuple->end(), [](auto& e) {
+                return dynamic_cast<const VariableExpression*>(e.get()) != nullptr;
+            });
+        return dynamic_cast<const VariableExpression*>(color) != nullptr ||
+               dynamic_cast<const DotConstantExpression*>(color) != nullptr;
+    }
+
     bool RedRulePreAgglomeration::apply(ColoredReducer &red, const PetriEngine::PQL::ColoredUseVisitor &inQuery,
                                         QueryType queryType, bool preserveLoops, bool preserveStutter) {
         bool continueReductions = false;
@@ -111,7 +130,7 @@ namespace PetriEngine::Colored::Reduction {
                     uint32_t kw;
 
                     // T9, S6
-                    if(prodArc->expr->is_single_color()){
+                    if(movesVariables(*prodArc->expr)){
                         kw = prodArc->expr->weight();
                     } else {
                         ok = false;
@@ -133,13 +152,11 @@ namespace PetriEngine::Colored::Reduction {
 
                         // (T9, S6), S10, T10, T12
                         if (atomic_viable){
-                            if (!consArc->expr->is_single_color() || kw % w != 0) {
+                            if (!movesVariables(*consArc->expr) || kw != w) {
                                 todo[n] = false;
                                 todoAllGood = false;
-                            } else if (kw != w) {
-                                kIsAlwaysOne[n] = false;
                             }
-                        } else if (!consArc->expr->is_single_color() || kw != w) {
+                        } else if (!movesVariables(*consArc->expr) || kw != w) {
                             ok = false;
                             break;
                         }
-- 
2.43.0


From e817ab113d94962abd1f488c1a620726cdb841a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:55 +0000
Subject: [PATCH 54/62] fix: rule S keeps the agglomerated transitions that
 leave tokens behind and splits tokens for one consumer only

---
 src/PetriEngine/Reducer.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/PetriEngine/Reducer.cpp b/src/PetriEngine/Reducer.cpp
index 187242f..52a5133 100644
--- a/src/PetriEngine/Reducer.cpp
+++ b/src/PetriEngine/Reducer.cpp
@@ -2676,6 +2676,8 @@ namespace PetriEngine {
             if (!ok) continue;
             std::vector<uint32_t> originalConsumers = place.consumers;
             std::vector<uint32_t> originalProducers = place.producers;
+            // The tokens of one firing of a producer are only split between firings of a single consumer
+            bool split = false;
             for (uint32_t n = 0; n < originalConsumers.size(); n++)
             {
                 if (hasTimedout())
@@ -2688,7 +2690,7 @@ namespace PetriEngine {
                 // S10, S11
                 if (atomic_viable && !kIsAlwaysOne[n]) {
                     // S11
-                    if (consumer.pre.size() != 1){
+                    if (split || consumer.pre.size() != 1){
                         continue;
                     }
                     // S10
@@ -2704,6 +2706,7 @@ namespace PetriEngine {
                 }
 
                 if (!ok) continue;
+                split |= !kIsAlwaysOne[n];
                 // Update
                 for (const auto& prod : originalProducers){
                     Transition &producer = getTransition(prod);
@@ -2829,9 +2832,8 @@ namespace PetriEngine {
             }
 
             if (place.consumers.empty()) {
-                // The producers of place will become purely consuming transitions when it is gone
-                auto transitions = place.producers;
-                for (uint32_t tran_id : transitions)
+                // The original producers of place will become purely consuming transitions when it is gone
+                for (uint32_t tran_id : originalProducers)
                 {
                     skipTransition(tran_id);
                     --n_added;
-- 
2.43.0


From eacd6e922cce4fb01b51c1ba44ff9fd732fe28e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:55 +0000
Subject: [PATCH 55/62] fix: coloured preemptive firing moves only tokens its
 arc matches, never through a self loop, and not for deadlock-sensitive
 queries

---
 .../Reduction/RedRulePreemptiveFiring.h       |  2 +-
 .../Reduction/RedRulePreemptiveFiring.cpp     | 26 +++++++++++++++++++
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/include/PetriEngine/Colored/Reduction/RedRulePreemptiveFiring.h b/include/PetriEngine/Colored/Reduction/RedRulePreemptiveFiring.h
index 96408f9..e0846f5 100644
--- a/include/PetriEngine/Colored/Reduction/RedRulePreemptiveFiring.h
+++ b/include/PetriEngine/Colored/Reduction/RedRulePreemptiveFiring.h
@@ -17,7 +17,7 @@ namespace PetriEngine::Colored::Reduction {
         std::string name() override { return "PreemptiveFiring"; }
 
         bool isApplicable(QueryType queryType, bool preserveLoops, bool preserveStutter) const override {
-            return !preserveStutter;
+            return !preserveStutter && !preserveLoops;
         }
 
         bool apply(ColoredReducer &red, const PetriEngine::PQL::ColoredUseVisitor &inQuery, QueryType queryType,
diff --git a/src/PetriEngine/Colored/Reduction/RedRulePreemptiveFiring.cpp b/src/PetriEngine/Colored/Reduction/RedRulePreemptiveFiring.cpp
index c353782..68ac649 100644
--- a/src/PetriEngine/Colored/Reduction/RedRulePreemptiveFiring.cpp
+++ b/src/PetriEngine/Colored/Reduction/RedRulePreemptiveFiring.cpp
@@ -59,6 +59,27 @@ namespace PetriEngine::Colored::Reduction {
         return continueReductions;
     }
 
+    // Whether tokens of every color can be moved, i.e. the arc is over a dot, a variable or a tuple of distinct variables
+    static bool matches_all_colors(const ArcExpression &expr) {
+        if (auto *add = dynamic_cast<const AddExpression *>(&expr))
+            return add->size() == 1 && matches_all_colors(*(*add)[0]);
+        if (auto *scalar = dynamic_cast<const ScalarProductExpression *>(&expr))
+            return matches_all_colors(*scalar->child());
+        auto *number = dynamic_cast<const NumberOfExpression *>(&expr);
+        if (number == nullptr || number->size() != 1) return false;
+        auto *color = (*number)[0].get();
+        if (auto *tuple = dynamic_cast<const TupleExpression *>(color)) {
+            std::set<const Variable *> seen;
+            for (auto &e: *tuple) {
+                auto *var = dynamic_cast<const VariableExpression *>(e.get());
+                if (var == nullptr || !seen.insert(var->variable()).second) return false;
+            }
+            return true;
+        }
+        return dynamic_cast<const VariableExpression *>(color) != nullptr ||
+               dynamic_cast<const DotConstantExpression *>(color) != nullptr;
+    }
+
     bool RedRulePreemptiveFiring::t_is_viable(ColoredReducer &red, const PetriEngine::PQL::ColoredUseVisitor &inQuery,
                                               uint32_t t, uint32_t p) {
         //fireability consistency check
@@ -82,8 +103,13 @@ namespace PetriEngine::Colored::Reduction {
         if (place.marking.distinctSize() > 1 && inWeight != 1) return false;
         if ((place.marking.size() % inWeight) != 0) return false;
 
+        if (!matches_all_colors(*in->expr)) return false;
+
         // Post set cannot inhibit or be in query
         for (auto &out: transition.output_arcs) {
+            // Firing would never empty the place
+            if (out.place == p) return false;
+
             auto &outPlace = red.places()[out.place];
             if (inQuery.isPlaceUsed(out.place) || outPlace.inhibitor) {
                 return false;
-- 
2.43.0


From 739c4c7977c737a504b56a8b9a163fbc912f60cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:18 +0000
Subject: [PATCH 56/62] fix: rule D keeps transitions that take more tokens
 from places with inhibitor arcs

---
 src/PetriEngine/Reducer.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/PetriEngine/Reducer.cpp b/src/PetriEngine/Reducer.cpp
index 52a5133..16a06a9 100644
--- a/src/PetriEngine/Reducer.cpp
+++ b/src/PetriEngine/Reducer.cpp
@@ -933,6 +933,15 @@ namespace PetriEngine {
                         continue;
                     }
                     if(!remove_loops_no_branch && !exact) { break;}
+                    if(!exact)
+                    {
+                        // The tokens that only t2 would have removed must not disable anything
+                        bool inhibits = false;
+                        for(auto* arcs : {&trans2.pre, &trans1.post})
+                            for(auto& arc : *arcs)
+                                inhibits |= parent->_places[arc.place].inhib;
+                        if(inhibits) { break;}
+                    }
 
                     // UD1. Remove transition t2
                     continueReductions = true;
-- 
2.43.0


From 98b5c6b91d39d6bb2311857651eedba5d524409c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:18 +0000
Subject: [PATCH 57/62] fix: rule H only merges a loop through query places for
 reachability queries

---
 include/PetriEngine/Reducer.h |  2 +-
 src/PetriEngine/Reducer.cpp   | 18 +++++++++++++-----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/PetriEngine/Reducer.h b/include/PetriEngine/Reducer.h
index b1d2101..af40ebc 100644
--- a/include/PetriEngine/Reducer.h
+++ b/include/PetriEngine/Reducer.h
@@ -161,7 +161,7 @@ namespace PetriEngine {
         bool ReducebyRuleF(uint32_t* placeInQuery);
         bool ReducebyRuleFNO(uint32_t* placeInQuery);
         bool ReducebyRuleG(uint32_t* placeInQuery, bool remove_loops, bool remove_consumers);
-        bool ReducebyRuleH(uint32_t* placeInQuery, bool all_ltl);
+        bool ReducebyRuleH(uint32_t* placeInQuery, bool all_reach, bool all_ltl);
         bool ReducebyRuleJ(uint32_t* placeInQuery);
         bool ReducebyRuleK(uint32_t* placeInQuery, bool remove_consumers);
         bool ReducebyRuleL(uint32_t* placeInQuery);
diff --git a/src/PetriEngine/Reducer.cpp b/src/PetriEngine/Reducer.cpp
index 16a06a9..bf3bc17 100644
--- a/src/PetriEngine/Reducer.cpp
+++ b/src/PetriEngine/Reducer.cpp
@@ -1330,7 +1330,7 @@ namespace PetriEngine {
         return continueReductions;
     }
 
-    bool Reducer::ReducebyRuleH(uint32_t* placeInQuery, bool all_ltl)
+    bool Reducer::ReducebyRuleH(uint32_t* placeInQuery, bool all_reach, bool all_ltl)
     {
         if(reconstructTrace)
             return false; // we don't know where in the loop the tokens are needed
@@ -1367,7 +1367,7 @@ namespace PetriEngine {
             return 1;
         };
 
-        auto removeLoop = [this,placeInQuery,all_ltl](std::vector<uint32_t>& loop) -> bool {
+        auto removeLoop = [this,placeInQuery,all_reach,all_ltl](std::vector<uint32_t>& loop) -> bool {
             size_t i = 0;
             for(; i < loop.size(); ++i)
                 if(loop[i] == loop.back())
@@ -1377,6 +1377,14 @@ namespace PetriEngine {
             if(i == loop.size() - 1)
                 return false;
 
+            if(!all_reach)
+            {
+                // Tokens cannot move around the loop unnoticed
+                for(size_t j = i; j < loop.size() - 1; ++j)
+                    if(placeInQuery[parent->_transitions[loop[j]].pre[0].place] > 0)
+                        return false;
+            }
+
             auto p1 = parent->_transitions[loop[i]].pre[0].place;
             bool removed = false;
 
@@ -2873,7 +2881,7 @@ namespace PetriEngine {
                 {
                     while(ReducebyRuleA(context.getQueryPlaceCount())) changed = true;
                     while(ReducebyRuleD(context.getQueryPlaceCount(), all_reach, false)) changed = true;
-                    while(ReducebyRuleH(context.getQueryPlaceCount(), all_ltl)) changed = true;
+                    while(ReducebyRuleH(context.getQueryPlaceCount(), all_reach, all_ltl)) changed = true;
                 }
             }
         }
@@ -2910,7 +2918,7 @@ restart:
                 if(!contains_next && !changed)
                 {
                     // Only try RuleH last. It can reduce applicability of other rules.
-                    while (ReducebyRuleH(context.getQueryPlaceCount(), all_ltl)) changed = true;
+                    while (ReducebyRuleH(context.getQueryPlaceCount(), all_reach, all_ltl)) changed = true;
                     while (ReducebyRuleS(context.getQueryPlaceCount(), all_reach, remove_loops, all_reach, explosion_limiter)) changed = true;
                     if(all_ltl && !changed) // ruleR is a last resort
                         changed = ReducebyRuleR(context.getQueryPlaceCount(), explosion_limiter);
@@ -2986,7 +2994,7 @@ restart:
                             while(ReducebyRuleG(context.getQueryPlaceCount(), remove_loops, all_reach)) changed = true;
                             break;
                         case 7:
-                            while(ReducebyRuleH(context.getQueryPlaceCount(), all_ltl)) changed = true;
+                            while(ReducebyRuleH(context.getQueryPlaceCount(), all_reach, all_ltl)) changed = true;
                             break;
                         case 8:
                             while(ReducebyRuleI(context.getQueryPlaceCount(), all_reach)) changed = true;
-- 
2.43.0


From a771d51f44ccf6a4430e735928924e54d9d6577a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:48 +0000
Subject: [PATCH 58/62] fix: rule B keeps the remainder of the initial tokens
 for other producers

---
 src/PetriEngine/Reducer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PetriEngine/Reducer.cpp b/src/PetriEngine/Reducer.cpp
index bf3bc17..564cd9f 100644
--- a/src/PetriEngine/Reducer.cpp
+++ b/src/PetriEngine/Reducer.cpp
@@ -553,8 +553,8 @@ namespace PetriEngine {
                     }
                 }
 
-                 // UB1. Remove place p
-                parent->initialMarking[p] = 0;
+                 // UB1. Remove place p, other producers may still use what tIn leaves behind
+                parent->initialMarking[p] %= inArc->weight;
                 // We need to remember that when tOut fires, tIn fires just after.
                 // this should fix the trace
 
-- 
2.43.0


From 80f3cfbf6634f73f9110d15381786d796042398a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:48 +0000
Subject: [PATCH 59/62] fix: game stubborn sets bound firings soundly, notice
 decremented query places and all unsafe actions

---
 src/PetriEngine/Synthesis/GameStubbornSet.cpp | 61 ++++++++-----------
 1 file changed, 27 insertions(+), 34 deletions(-)

diff --git a/src/PetriEngine/Synthesis/GameStubbornSet.cpp b/src/PetriEngine/Synthesis/GameStubbornSet.cpp
index 72f284b..6b0f16b 100644
--- a/src/PetriEngine/Synthesis/GameStubbornSet.cpp
+++ b/src/PetriEngine/Synthesis/GameStubbornSet.cpp
@@ -94,7 +94,6 @@ namespace PetriEngine {
                                     continue;
                                 // has to be consuming
                                 _safe_actions[id] = false;
-                                break;
                             }
                         }
                     } else {
@@ -106,7 +105,6 @@ namespace PetriEngine {
                                 if (!_net.controllable(id))
                                     continue;
                                 _safe_actions[id] = false;
-                                break;
                             }
                         }
                     }
@@ -135,7 +133,7 @@ namespace PetriEngine {
                         while (fout < lout && fout->place < finv->place)
                             ++fout;
                         if (fout < lout && fout->place == finv->place) {
-                            mx = std::min(_place_bounds[finv->place].second / (fout->tokens - finv->tokens), mx);
+                            mx = std::min(_place_bounds[finv->place].second / (finv->tokens - fout->tokens), mx);
                         } else {
                             mx = std::min(_place_bounds[finv->place].second / finv->tokens, mx);
                         }
@@ -160,7 +158,7 @@ namespace PetriEngine {
                 _places_seen[p] &= ~WAITING;
 
                 // place loop
-                uint64_t sum = 0;
+                uint64_t sum = (*_parent)[p];
                 for (auto ti = _places[p].pre; ti != _places[p].post; ++ti) {
                     const auto& arc = _arcs[ti];
                     if (arc.direction <= 0 ||
@@ -250,12 +248,12 @@ namespace PetriEngine {
             std::fill(_future_enabled.begin(), _future_enabled.end(), false);
             auto color_transition = [this, &waiting](auto t) {
                 _future_enabled[t] = true;
-                if (_netContainsInhibitorArcs) {
+                {
                     // check for decrementors
                     auto [finv, linv] = _net.preset(t);
 
                     for (; finv < linv; ++finv) {
-                        if (finv->direction < 0 && _inhibiting_place[finv->place]) {
+                        if (finv->direction < 0 && (_inhibiting_place[finv->place] || _in_query[finv->place])) {
                             if ((_places_seen[finv->place] & DECR) == 0)
                                 waiting.push(finv->place);
                             _places_seen[finv->place] |= DECR;
@@ -276,6 +274,24 @@ namespace PetriEngine {
                 }
             };
 
+            auto try_transition = [this, ctrl, &color_transition](auto t) {
+                if (_future_enabled[t] || _net.controllable(t) != ctrl)
+                    return;
+                // check color of preset
+                auto [finv, linv] = _net.preset(t);
+                for (; finv < linv; ++finv) {
+                    if (!finv->inhibitor &&
+                        (_places_seen[finv->place] & INCR) == 0 &&
+                        (*_parent)[finv->place] < finv->tokens)
+                        return; // no proof of enabelable yet
+                    if (finv->inhibitor &&
+                        (_places_seen[finv->place] & DECR) == 0 &&
+                        (*_parent)[finv->place] >= finv->tokens)
+                        return; // no proof of uninhib yet
+                }
+                color_transition(t);
+            };
+
             // bootstrap
             for (auto t : (ctrl ? _ctrl_acts : _env_acts)) {
                 assert(_enabled[t]);
@@ -294,34 +310,11 @@ namespace PetriEngine {
                     (_inhibiting_place[p] && (_places_seen[p] & DECR) != 0)) {
                     auto pf = _places[p].post;
                     auto pl = _places[p + 1].pre;
-                    for (; pf < pl; ++pf) {
-                        if ((_future_enabled[_arcs[pf].index]) == 0 &&
-                            _net.controllable(_arcs[pf].index) == ctrl) {
-                            auto t = _arcs[pf].index;
-                            auto [finv, linv] = _net.preset(t);
-                            bool ok = true;
-                            // check color of preset
-                            for (; finv < linv; ++finv) {
-                                if (!finv->inhibitor &&
-                                    (_places_seen[finv->place] & INCR) == 0 &&
-                                    (*_parent)[finv->place] < finv->tokens) {
-                                    // no proof of enabelable yet
-                                    ok = false;
-                                    break;
-                                }
-                                if (finv->inhibitor &&
-                                    (_places_seen[finv->place] & DECR) == 0 &&
-                                    (*_parent)[finv->place] >= finv->tokens) {
-                                    // no proof of uninhib yet
-                                    ok = false;
-                                    break;
-                                }
-                            }
-                            if (ok) {
-                                color_transition(t);
-                            }
-                        }
-                    }
+                    for (; pf < pl; ++pf)
+                        try_transition(_arcs[pf].index);
+                    if (_netContainsInhibitorArcs)
+                        for (auto t : _inhibpost[p])
+                            try_transition(t);
                 }
             }
             return seen_from_query;
-- 
2.43.0


From d188b1c7fb4915b83b01e12b13b075268caa3cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:48 +0000
Subject: [PATCH 60/62] fix: interval visitor evaluates negations, unary minus
 and subtraction and does not overflow

---
 include/PetriEngine/Synthesis/IntervalVisitor.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/PetriEngine/Synthesis/IntervalVisitor.h b/include/PetriEngine/Synthesis/IntervalVisitor.h
index 3b0a0ab..a058074 100644
--- a/include/PetriEngine/Synthesis/IntervalVisitor.h
+++ b/include/PetriEngine/Synthesis/IntervalVisitor.h
@@ -11,6 +11,7 @@
 
 #include "PetriEngine/PQL/Visitor.h"
 #include <cassert>
+#include <cstdlib>
 
 
 namespace PetriEngine {
@@ -31,6 +32,7 @@ namespace PetriEngine {
         protected:
             virtual void _accept(const PQL::NotCondition* element)
             {
+                Visitor::visit(this, (*element)[0]);
                 switch(_result_tos)
                 {
                     case TRUE:
@@ -288,9 +290,16 @@ namespace PetriEngine {
             template<typename T>
             std::pair<T,T> multiply(const std::pair<T,T> a, const std::pair<T,T> b)
             {
-                auto lb = a.first * b.first;
+                // unbounded places are represented by large numbers, products of those must not overflow
+                auto mul = [](T x, T y) -> T {
+                    constexpr T limit = ((T)1) << 56;
+                    if (x != 0 && std::abs(y) > limit / std::abs(x))
+                        return (x < 0) != (y < 0) ? -limit : limit;
+                    return x * y;
+                };
+                auto lb = mul(a.first, b.first);
                 auto ub = lb;
-                for(auto v : {a.first* b.second, a.second*b.first, a.second*b.second})
+                for(auto v : {mul(a.first, b.second), mul(a.second, b.first), mul(a.second, b.second)})
                 {
                     lb = std::min(lb, v);
                     ub = std::max(ub, v);
@@ -315,6 +324,7 @@ namespace PetriEngine {
             }
 
             virtual void _accept(const PQL::MinusExpr *element) {
+                Visitor::visit(this, (*element)[0]);
                 _bound_tos.first *= -1;
                 _bound_tos.second *= -1;
                 std::swap(_bound_tos.first, _bound_tos.second);
@@ -328,8 +338,7 @@ namespace PetriEngine {
                     Visitor::visit(this, e);
                     if(first)
                     {
-                        bounds.first = _bound_tos.second;
-                        bounds.second = _bound_tos.first;
+                        bounds = _bound_tos;
                         first = false;
                     }
                     else
-- 
2.43.0


From f55d0cbe185bd6c978a39a3f0d48e7adf404cee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:48 +0000
Subject: [PATCH 61/62] fix: synthesis accepts controller self loops in safety
 games and prints only winning moves

---
 src/PetriEngine/Synthesis/SimpleSynthesis.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/PetriEngine/Synthesis/SimpleSynthesis.cpp b/src/PetriEngine/Synthesis/SimpleSynthesis.cpp
index 787abb0..23c946f 100644
--- a/src/PetriEngine/Synthesis/SimpleSynthesis.cpp
+++ b/src/PetriEngine/Synthesis/SimpleSynthesis.cpp
@@ -97,6 +97,11 @@ namespace PetriEngine {
                     }
                 }
             }
+            else if (auto b = dynamic_cast<PQL::BooleanCondition*>(condition))
+            {
+                // decided while preparing the query
+                return {true, PQL::BooleanCondition::getShared(b->value)};
+            }
             throw base_error("Only AF and AG propositions supported for synthesis");
         }
 
@@ -347,6 +352,8 @@ namespace PetriEngine {
             {
                 auto res = _stateset.add(working);
                 missing.emplace(res.second);
+                auto& state = _stateset.get_data(res.second)._state;
+                state = state | SynthConfig::PRINTED;
             }
             if (&out == &std::cout) out << "\n##BEGIN STRATEGY##\n";
             out << "{\n";
@@ -359,6 +366,8 @@ namespace PetriEngine {
                 if ((meta._state & SynthConfig::WINNING) ||
                     (_is_safety && (meta._state & (SynthConfig::UNKNOWN | SynthConfig::LOSING)) == 0)) {
                     _stateset.decode(parent, nxt);
+                    if (!_is_safety && eval(_predicate.get(), parent.marking()))
+                        continue; // reached the goal, no more moves needed
                     generator.prepare(parent);
                     while (generator.next_env(working)) {
                         auto res = _stateset.add(working);
@@ -384,11 +393,13 @@ namespace PetriEngine {
                         auto state = _stateset.get_data(res.second)._state;
                         if ((state & SynthConfig::LOSING)) continue;
                         if (!_is_safety && (state & SynthConfig::WINNING) == 0) continue;
+                        if (state & SynthConfig::UNKNOWN) continue; // never explored
                         if ((state & SynthConfig::WINNING) && !seen_win) {
                             seen_win = true;
                             winning.clear();
                             winning_succs.clear();
                         }
+                        if (seen_win && (state & SynthConfig::WINNING) == 0) continue;
                         winning.emplace_back(generator.fired());
                         winning_succs.emplace(res.second);
                     }
@@ -465,6 +476,7 @@ namespace PetriEngine {
                 some = true;
                 if (&child == &cconf) {
                     if (_is_safety) { // maybe a win if safety ( no need to explore more)
+                        some_winning = true;
                         cconf._state = SynthConfig::MAYBE;
                         if (!permissive) {
                             ctrl_buffer.clear();
-- 
2.43.0


From ae82c001ee6333beb93cf1cc3ba7f2f11041afea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:48 +0000
Subject: [PATCH 62/62] fix: answer all synthesis queries, and print strategies
 covering all moves

---
 src/main.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index 9f2094d..beec22c 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -462,7 +462,8 @@ int main(int argc, const char** argv) {
 
                 std::ostream *strategy_out = nullptr;
 
-                results[i] = strategy.synthesize(options.strategy, options.stubbornreduction, false);
+                // a strategy has to answer also the moves that partial order reduction leaves out
+                results[i] = strategy.synthesize(options.strategy, options.stubbornreduction && options.strategy_output.empty(), false);
 
                 strategy.result().print(querynames[i], options.printstatistics, i, options, std::cout);
 
@@ -476,9 +477,10 @@ int main(int argc, const char** argv) {
 
                 if (strategy_out != nullptr && strategy_out != &std::cout)
                     delete strategy_out;
-                if (std::find(results.begin(), results.end(), ResultPrinter::Unknown) == results.end()) {
-                    return to_underlying(ReturnValue::SuccessCode);
-                }
+            }
+            if (!synth_ids.empty() &&
+                std::find(results.begin(), results.end(), ResultPrinter::Unknown) == results.end()) {
+                return to_underlying(ReturnValue::SuccessCode);
             }
 
 
-- 
2.43.0

