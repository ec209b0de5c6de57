"""The properties: one entry each; gen.py writes properties.jsonl and MANIFEST.json from it."""
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe) or ["FORMULA lines of the command line tool"], hook_needed=None,
                               state=[dict(name=a, meaning=b, where=w) for a, b, w in state]),
                  technique=technique, note=note))


TESTS = "The stable tests parse a few query strings, push a few negations and print one query; none of them explores a net."

prop("C01", "Reachability answers are right under every search strategy",
     "For every Petri net (weights, inhibitor arcs, any initial marking) and every reachability, deadlock, fireability or token-count query, the verdict printed with any search strategy (breadth first, depth first, random depth first, best first, random potency first, random walk) is the truth in the net's reachability graph. The verdict does not depend on the strategy, the random seed, or the other queries of the run.",
     ["inputs", "configurations"], "all nets x all queries x all strategies and seeds",
     TESTS + " Errors show only for particular nets and query thresholds.",
     ["src/PetriEngine/Reachability/ReachabilitySearch.cpp", "include/PetriEngine/Reachability/ReachabilitySearch.h", "src/PetriEngine/SuccessorGenerator.cpp", "src/PetriEngine/Structures/Queue.cpp", "src/PetriEngine/Structures/PotencyQueue.cpp", "include/PetriEngine/Structures/StateSet.h", "src/PetriEngine/PQL/Evaluation.cpp", "src/VerifyPN.cpp"],
     [("explicit search over an encoded state set with pluggable queue", "ReachabilitySearch::tryReach"), ("successor generation", "SuccessorGenerator::next"), ("query evaluation", "PQL/Evaluation.cpp")],
     "differential monitoring: verdicts of the real tool on generated nets against a reference explicit-state checker", "bounded random exploration, nets up to 600 markings")

prop("C02", "Structural net reductions preserve answers",
     "Reducing the net before the search, at any reduction level or with any user given rule sequence, never changes the verdict of a reachability, CTL or LTL query, for nets with weights and inhibitor arcs and for several queries at once.",
     ["inputs", "configurations"], "all nets x all queries x all reduction levels and rule sequences",
     TESTS + " No test runs a reduction rule.",
     ["src/PetriEngine/Reducer.cpp", "include/PetriEngine/Reducer.h", "src/PetriEngine/PetriNetBuilder.cpp", "src/PetriEngine/PQL/PlaceUseVisitor.cpp"],
     [("rules A to S with their side conditions", "Reducer::ReducebyRule*"), ("which places the query observes", "PlaceUseVisitor"), ("which rules may run for which logic", "Reducer::Reduce")],
     "differential monitoring of reduced runs against a reference explicit-state checker", "bounded random exploration, nets decorated with reducible structure")

prop("C03", "Partial order reduction preserves answers",
     "Exploring only the stubborn transitions of each marking never changes the verdict of a reachability, CTL or LTL query compared with exploring all of them, under every search strategy and every LTL partial order method.",
     ["inputs", "configurations"], "all nets x all queries x all stubborn set methods",
     TESTS + " No test computes a stubborn set.",
     ["src/PetriEngine/Stubborn/StubbornSet.cpp", "src/PetriEngine/Stubborn/ReachabilityStubbornSet.cpp", "src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp", "src/PetriEngine/ReducingSuccessorGenerator.cpp", "src/LTL/Stubborn/VisibleLTLStubbornSet.cpp", "src/LTL/Stubborn/AutomatonStubbornSet.cpp", "src/LTL/Stubborn/SafeAutStubbornSet.cpp"],
     [("closure under dependence", "StubbornSet::closure"), ("transitions that can change the query", "InterestingTransitionVisitor"), ("LTL visibility and cycle conditions", "LTL/Stubborn")],
     "differential monitoring of reduced exploration against a reference explicit-state checker", "bounded random exploration biased to concurrent components")

prop("C04", "Query simplification preserves truth",
     "Simplifying a query (pushing negations, evaluating the initial marking, ruling out atoms with the state equation, dropping trivial parts) yields a query with the same truth value on the given net for every reachability, CTL and LTL query, so no verdict changes, and a simplified query written to a file still means the same.",
     ["inputs", "configurations"], "all nets x all queries x simplification settings",
     "The stable tests check three rewrites of one comparison; the linear programs and the temporal rewrites are not exercised.",
     ["src/PetriEngine/PQL/Simplifier.cpp", "src/PetriEngine/PQL/PushNegation.cpp", "src/PetriEngine/Simplification/LinearPrograms.cpp", "src/PetriEngine/Simplification/LinearProgram.cpp", "include/PetriEngine/Simplification/Member.h", "src/PetriEngine/Simplification/LPCache.cpp"],
     [("over-approximation by the state equation", "LinearProgram::isImpossible"), ("merging of programs through the formula", "Simplifier"), ("negation pushing and short-circuiting", "PushNegationVisitor")],
     "differential monitoring of simplified runs and of the written simplified queries against a reference checker", "bounded random exploration")

prop("C05", "Trace abstraction refinement answers like explicit search",
     "Whenever trace abstraction refinement answers a reachability query, the answer is the truth in the reachability graph, with and without net reduction and query simplification.",
     ["inputs", "configurations"], "all inhibitor-free nets x reachability queries",
     TESTS + " No test runs trace abstraction refinement.",
     ["src/PetriEngine/TAR/TARReachability.cpp", "src/PetriEngine/TAR/Solver.cpp", "src/PetriEngine/TAR/TraceSet.cpp", "src/PetriEngine/TAR/RangeContext.cpp", "src/PetriEngine/TAR/RangeEvalContext.cpp", "src/PetriEngine/TAR/ContextEvaluation.cpp"],
     [("interpolant automaton over ranges", "TraceSet"), ("trace feasibility and interpolation", "Solver::check"), ("ranges implied by a query", "RangeContext")],
     "differential monitoring against a reference explicit-state checker", "bounded random exploration; runs cut off by the time limit are inconclusive")

prop("C06", "CTL answers are right with every engine",
     "For every net and every CTL formula, nested in any way, the verdict of either fixpoint engine under any search order is the truth under maximal-path semantics, in which a deadlocked path simply ends.",
     ["inputs", "configurations"], "all nets x all CTL formulas x both engines x search orders",
     TESTS,
     ["src/CTL/CTLEngine.cpp", "src/CTL/PetriNets/OnTheFlyDG.cpp", "src/CTL/Algorithm/CertainZeroFPA.cpp", "src/CTL/Algorithm/LocalFPA.cpp", "src/CTL/SearchStrategy/SearchStrategy.cpp"],
     [("dependency graph of a formula on the fly", "OnTheFlyDG::successors"), ("certain-zero and local fixpoints", "CTL/Algorithm"), ("delegation of simple subformulas to reachability and LTL search", "CTLEngine.cpp")],
     "differential monitoring of both engines against a reference CTL checker", "bounded random exploration")

prop("C07", "LTL answers are right with every algorithm, heuristic and option",
     "For every net and every universally or existentially quantified LTL formula, the verdict of nested depth first search and of Tarjan's algorithm, under every heuristic, weak-automaton shortcut and partial order method, is the truth under the semantics where a deadlocked marking repeats forever.",
     ["inputs", "configurations"], "all nets x all LTL formulas x algorithms x heuristics x options",
     TESTS,
     ["src/LTL/LTLSearch.cpp", "src/LTL/LTLToBuchi.cpp", "src/LTL/Algorithm/NestedDepthFirstSearch.cpp", "src/LTL/Algorithm/TarjanModelChecker.cpp", "include/LTL/SuccessorGeneration/ProductSuccessorGenerator.h", "src/LTL/SuccessorGeneration/CompoundGenerator.cpp", "src/LTL/SuccessorGeneration/ResumingSuccessorGenerator.cpp"],
     [("product of net and automaton", "ProductSuccessorGenerator"), ("accepting cycle detection", "LTL/Algorithm"), ("heuristic ordered successors", "SpoolingSuccessorGenerator")],
     "differential monitoring against a reference LTL checker", "bounded random exploration; spot's translation replaced by a stand-in")

prop("C11", "Printed traces are real runs that justify the verdict",
     "Every trace printed for a reachability query is a firing sequence of the original input net from its initial marking that ends in a marking deciding the query, also when the net was reduced first; every trace printed for an LTL query is a run whose loop closes (or that ends in a deadlock, or in a marking where any continuation will do) and that decides the formula. Each step lists exactly the tokens the transition consumes.",
     ["inputs", "histories", "configurations"], "all nets x decided queries x strategies x reductions",
     TESTS + " No test asks for a trace.",
     ["src/PetriEngine/Reachability/ResultPrinter.cpp", "src/PetriEngine/Reducer.cpp", "src/LTL/LTLSearch.cpp", "src/LTL/Algorithm/TarjanModelChecker.cpp", "src/LTL/Algorithm/NestedDepthFirstSearch.cpp"],
     [("back pointers in the traceable state set", "TracableStateSet"), ("reinsertion of reduced transitions", "Reducer::postFire, Reducer::initFire"), ("loop printing", "LTLSearch::_print_trace")],
     "online trace checker: every printed trace is replayed on a reference net and its word evaluated", "bounded random exploration", observe=["the <trace> element on stderr"])

prop("C08", "Unfolding a coloured net preserves answers",
     "For every coloured net (enumerations, integer ranges, products, dot; variables, successor and predecessor, all, sums, scalar multiples and differences on arcs, guards with any connectives, inhibitor arcs) and every reachability, CTL or LTL query, the verdict obtained by unfolding is the truth in the coloured net's own semantics: each valid binding is present, no invalid binding is, and the colour fixpoint, the colour partitioning, the variable symmetries and the interval limits never change the answer.",
     ["inputs", "configurations"], "all coloured nets x queries x unfolding options",
     TESTS + " No test unfolds a net.",
     ["src/PetriEngine/Colored/Unfolder.cpp", "src/PetriEngine/Colored/ForwardFixedPoint.cpp", "src/PetriEngine/Colored/GuardRestrictor.cpp", "src/PetriEngine/Colored/IntervalGenerator.cpp", "src/PetriEngine/Colored/PartitionBuilder.cpp", "src/PetriEngine/Colored/EquivalenceVec.cpp", "src/PetriEngine/Colored/VariableSymmetry.cpp", "src/PetriEngine/Colored/BindingGenerator.cpp", "src/PetriEngine/Colored/EvaluationVisitor.cpp", "src/PetriEngine/Colored/Multiset.cpp", "include/PetriEngine/Colored/Intervals.h"],
     [("colours that can reach a place", "ForwardFixedPoint::compute"), ("classes of interchangeable colours", "PartitionBuilder"), ("enumeration of bindings", "FixpointBindingGenerator, NaiveBindingGenerator"), ("arc and guard evaluation", "EvaluationVisitor, GuardRestrictor")],
     "differential monitoring of the unfolded verdicts against a direct enumeration of bindings", "bounded random exploration; colour partitioning is exercised on a restricted class of nets, see DESIGN.md")

prop("C09", "The explicit coloured engine answers correctly without unfolding",
     "For every coloured net and every reachability query it accepts, the explicit coloured engine's verdict and exit code are the truth in the coloured net's own semantics, under every search order, both successor generators and with or without the colour ignorant linear programs; a query it cannot handle is refused without a verdict; every printed trace is a run of the coloured net with the stated bindings and markings, and decides the query.",
     ["inputs", "histories", "configurations"], "all coloured nets x reachability queries x search orders x successor generators",
     TESTS + " The coloured tests only sample compiled guards and arcs.",
     ["src/PetriEngine/ExplicitColored/ExplicitColoredModelChecker.cpp", "src/PetriEngine/ExplicitColored/ColoredSuccessorGenerator.cpp", "src/PetriEngine/ExplicitColored/ExplicitColoredPetriNetBuilder.cpp", "src/PetriEngine/ExplicitColored/ExpressionCompilers", "src/PetriEngine/ExplicitColored/SequenceMultiSet.h", "src/PetriEngine/ExplicitColored/Algorithms", "src/PetriEngine/ExplicitColored/ExplicitColoredTraceContext.cpp"],
     [("compiled guards and arc expressions", "GuardCompiler, ArcCompiler"), ("lazy enumeration of enabled bindings", "ColoredSuccessorGenerator"), ("encoded marking store", "ColoredPetriNetStateFixed / ColoredEncoder"), ("trace reconstruction", "ExplicitColoredTraceContext")],
     "differential monitoring of verdicts against a direct enumeration of bindings, plus an online trace checker", "bounded random exploration", observe=["FORMULA line", "exit code", "the trace"])

prop("C15", "A query means the same in every notation",
     "For every net and query, the query read from textual, XML or binary notation (with all synonyms and the properties of the whole net: k-safe, liveness, quasi-liveness, stable-marking, invariant, possibility, impossibility) means what the notation says; printing it as XML, compact XML, text or binary, reading it back, copying it, pushing negations inward, and writing it with --write-simplified or --write-unfolded-queries never changes its meaning; no query is lost, duplicated or renamed on the way; a state formula evaluates in every marking to what it says.",
     ["inputs", "configurations"], "all nets x queries x notations x chains of conversions",
     TESTS + " The parser tests only sample a handful of fixed texts.",
     ["src/PetriParse/QueryXMLParser.cpp", "src/PetriParse/QueryBinaryParser.cpp", "src/PetriEngine/PQL/PQLQueryParser.y", "src/PetriEngine/PQL/PQLQueryTokens.l", "src/PetriEngine/PQL/XMLPrinter.cpp", "src/PetriEngine/PQL/QueryPrinter.cpp", "src/PetriEngine/PQL/BinaryPrinter.cpp", "src/PetriEngine/PQL/Expressions.cpp", "src/PetriEngine/PQL/Evaluation.cpp", "src/PetriEngine/PQL/Analyze.cpp", "src/PetriEngine/PQL/CTLVisitor.cpp", "src/PetriEngine/PQL/PushNegation.cpp"],
     [("readers", "QueryXMLParser, QueryBinaryParser, ParseQuery"), ("writers", "XMLPrinter, QueryPrinter, BinaryPrinter, writeQueries"), ("compilation against a net", "AnalyzeVisitor"), ("evaluation", "EvaluateVisitor")],
     "online monitor in a harness linking the real code: every printed form is read by an independent reader and compared by its set of satisfying markings", "bounded random exploration; names of places and transitions are plain identifiers in textual notation", observe=["every printed form of a query", "FORMULA lines", "evaluation results"])

prop("C10", "Coloured reductions and the coloured over-approximation preserve answers",
     "For every coloured net and query, every coloured reduction rule, alone and in any sequence, for unfolded and for explicit coloured search, leaves the verdict what it is in the coloured net's own semantics; when the colour-ignorant over-approximation answers, the answer is right.",
     ["inputs", "configurations"], "all coloured nets x queries x coloured rule sequences",
     TESTS + " No test applies a coloured reduction.",
     ["src/PetriEngine/Colored/Reduction", "include/PetriEngine/Colored/Reduction", "src/PetriEngine/Colored/ArcVarMultisetVisitor.cpp", "src/PetriEngine/Colored/VarReplaceVisitor.cpp", "include/PetriEngine/Colored/VarMultiset.h"],
     [("coloured rules", "RedRule*::apply"), ("which places and transitions a query sees", "ColoredUseVisitor"), ("stripping colours", "ColoredPetriNetBuilder::stripColors")],
     "differential monitoring of reduced runs against a direct enumeration of bindings", "bounded random exploration")

prop("C16", "A net means the same in every notation",
     "However a net is spelled (attribute or inscription weights, type attributes or elements for inhibitor arcs, transport arcs, arcs and nodes in any order, pages, names with characters XML has to escape), the tool reads the places, markings, transitions, players and arcs it describes; a net written with --write-reduced, --write-unfolded-net or --write-col-reduced, read back, behaves like the net it was written from; every construct of coloured nets (sorts, constants, all, tuples, guards) keeps its meaning through writing and reading.",
     ["inputs", "configurations"], "all nets x spellings x write and read cycles",
     TESTS + " The parser tests read a handful of fixed models and write none.",
     ["src/PetriParse/PNMLParser.cpp", "src/PetriEngine/PetriNet.cpp", "src/PetriEngine/AbstractPetriNetBuilder.cpp", "src/PetriEngine/Colored/PnmlWriter.cpp", "src/PetriEngine/Colored/PnmlWriterColorExprVisitor.cpp", "src/PetriEngine/PetriNetBuilder.cpp"],
     [("reader", "PNMLParser"), ("P/T writer", "PetriNet::toXML"), ("coloured writer", "PnmlWriter, PnmlWriterColorExprVisitor")],
     "online monitor in a harness linking the real reader and writer, plus an independent reader of every written file", "bounded random exploration; identifiers are XML names", observe=["calls of the parser to its builder", "the compiled net", "written files", "FORMULA lines"])

prop("C21", "Successors are exactly those of the firing rule",
     "In every marking every successor generator (plain, resuming, game for each player) yields each enabled transition exactly once, no disabled one, with exactly the marking the firing rule gives, also when suspended and resumed or reset in between; fireable and deadlocked agree with it; the number of markings, edges, tokens and the largest token count reported by full exploration are those of the reachability graph.",
     ["inputs", "histories"], "all nets (weights, inhibitor arcs, players) x all markings x suspension points",
     TESTS + " No test generates a successor.",
     ["src/PetriEngine/SuccessorGenerator.cpp", "include/PetriEngine/SuccessorGenerator.h", "src/LTL/SuccessorGeneration/ResumingSuccessorGenerator.cpp", "src/PetriEngine/Synthesis/GameSuccessorGenerator.cpp", "src/PetriEngine/PetriNet.cpp"],
     [("enumeration of enabled transitions", "SuccessorGenerator::next"), ("suspension", "ResumingSuccessorGenerator"), ("players", "GameSuccessorGenerator")],
     "online monitor in a harness linking the real generators: every yielded transition and marking is checked against the firing rule", "bounded random exploration; the last token value 2^32-1 may be refused", observe=["each transition and marking a generator yields", "STATE_SPACE lines of -e"])

prop("C19", "Stored markings come back unchanged",
     "Whatever markings of whatever sizes are stored, in whatever order, each reads back exactly as stored; equal markings and only those are taken for the same one and keep their identifier; sizes, largest token counts, per-place bounds and the recorded parents and transitions are those of the history; product states keep their automaton state; cells of the bucket list are handed out once each, also to concurrent threads.",
     ["inputs", "histories", "schedules"], "all sequences of insertions, look-ups and readings of markings with up to 2^32-1 tokens per place",
     TESTS + " No test stores a marking.",
     ["src/PetriEngine/Structures/AlignedEncoder.cpp", "src/PetriEngine/Structures/binarywrapper.cpp", "include/utils/structures/binarywrapper.h", "include/PetriEngine/Structures/StateSet.h", "include/LTL/Structures/BitProductStateSet.h", "include/PetriEngine/Structures/linked_bucket.h"],
     [("choice among the encodings", "AlignedEncoder::getType"), ("encodings", "AlignedEncoder::encode, decode"), ("sets", "StateSet, TracableStateSet, BitProductStateSet")],
     "online monitor of random histories on the real containers against a naive map", "bounded random exploration", observe=["every return value of the containers"])

prop("C20", "Every work list hands out each item exactly once",
     "Whatever is pushed in whatever order, every work list of the tool (breadth first, depth first, random depth first, best first and potency queues; the search strategies of the dependency graph; successor queues; the deque) hands out each waiting item exactly once, nothing else, says truthfully whether it is empty, and keeps the order it promises: depth first the latest, best first a nearest one, breadth first earlier generations before later ones.",
     ["inputs", "histories"], "all sequences of pushes and pops",
     TESTS + " No test uses a work list.",
     ["src/PetriEngine/Structures/Queue.cpp", "src/PetriEngine/Structures/PotencyQueue.cpp", "include/PetriEngine/Structures/SuccessorQueue.h", "include/utils/structures/light_deque.h", "src/CTL/SearchStrategy/SearchStrategy.cpp", "src/CTL/SearchStrategy/RDFSSearch.cpp", "src/CTL/SearchStrategy/HeuristicSearch.cpp", "include/CTL/SearchStrategy"],
     [("reachability queues", "Queue, PotencyQueue"), ("dependency graph strategies", "SearchStrategy"), ("successor lists", "SuccessorQueue")],
     "online monitor of random histories on the real containers: conservation, exactly-once and order", "bounded random exploration", observe=["every popped item", "empty()"])

prop("C13", "Controller synthesis answers and strategies are right",
     "For every two-player net and every control: AG or control: AF query, the tool says satisfied exactly when the controller has a winning strategy from the initial marking (in each marking the environment may fire any of its enabled transitions; otherwise the controller fires one of its own if it has one): for AG the predicate holds forever, for AF it eventually holds. This holds for each search order, with and without game partial order reduction, and for each of several queries in a run. A printed strategy offers, in every marking it leads to in which the controller has a move and the goal is not yet reached, at least one move, and only enabled moves of the controller to markings from which it still wins.",
     ["inputs", "histories", "configurations"], "all two-player nets x AG and AF predicates x search orders x partial order reduction",
     TESTS + " No test plays a game.",
     ["src/PetriEngine/Synthesis/SimpleSynthesis.cpp", "src/PetriEngine/Synthesis/GameSuccessorGenerator.cpp", "src/PetriEngine/Synthesis/GamePORSuccessorGenerator.cpp", "src/PetriEngine/Synthesis/GameStubbornSet.cpp", "include/PetriEngine/Synthesis/IntervalVisitor.h", "src/main.cpp"],
     [("on-the-fly fixpoint with dependers", "SimpleSynthesis::run, dependers_to_waiting"), ("alternation of players", "GameSuccessorGenerator"), ("stubborn sets for games", "GameStubbornSet"), ("printed strategies", "SimpleSynthesis::print_strategy")],
     "differential monitoring of verdicts against the winning region of a reference fixpoint, plus an online checker that follows every printed strategy", "bounded random exploration, games up to 600 markings", observe=["FORMULA lines", "the printed strategy"])

prop("C14", "Reported place bounds are the exact maxima",
     "For every bounded net and place set, an upper-bounds query reports exactly the largest total number of tokens the set holds in any reachable marking, for P/T nets (weights, inhibitor arcs) and coloured nets, under every search strategy, reduction level, with and without query simplification and partial order reduction, and for several queries in a run.",
     ["inputs", "configurations"], "all bounded nets x place sets x strategies x reductions x simplification",
     TESTS + " No test asks for a bound.",
     ["src/PetriEngine/Reachability/ReachabilitySearch.cpp", "src/PetriEngine/PQL/Expressions.cpp", "src/PetriEngine/PQL/Evaluation.cpp", "src/PetriEngine/Simplification/LinearProgram.cpp", "src/PetriEngine/Reducer.cpp", "src/PetriEngine/Reachability/ResultPrinter.cpp", "src/PetriEngine/Colored/PnmlWriter.cpp"],
     [("maximum over explored markings", "UnfoldedUpperBoundsCondition, EvaluateAndSetVisitor"), ("bounds by linear programs", "LinearProgram::bounds, Simplifier"), ("rules allowed for bounds", "Reducer::Reduce")],
     "differential monitoring: reported bounds of the real tool against the maximum over the reference's reachability graph", "bounded random exploration, nets up to 600 markings", observe=["the number printed with a FORMULA line"])
