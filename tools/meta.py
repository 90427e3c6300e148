#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SOLV = ["src/solver/parallel.rs", "src/solver/barrier.rs"]
DDS = ["src/mdd/with_all.rs", "src/mdd/with_barrier.rs"]
P = []
def prop(id, title, statement, over, text, why, files, mech, obs=None, level_note=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=obs or [], hook_needed=None), note=level_note))

NOTEST = "The existing tests only cover the node flags and two documentation examples; no test runs a solver or compiles a diagram at all."
BASE = ("Generated-input search, not proof: the property held on every generated case. The oracle is a memoised recursion over the same decision tables, "
        "validated by construction only. Models are restricted to those that honour the documented contracts (valid relaxation, admissible estimate, "
        "states that tell their depth, widths and worker counts of at least one, no arithmetic overflow of true values). ")
SCHED = ("Interleavings are explored by a random / PCT / round-robin scheduler at the lock, wait and notify operations of a stand-in for parking_lot "
         "(and inside model callbacks when 'fine'); unsynchronised accesses are not modelled (the crate has no unsafe code). ")

prop("C01", "The parallel solver proves the true optimum",
  "When a search of the parallel solver runs to its end, the reported best value is the value of the best feasible assignment of the problem, the lower and the upper bound both equal it, and the status is Proved. When no feasible assignment exists, no value and no solution are reported and both bounds are the minimal integer.",
  ["inputs", "configurations"], "Every problem with a valid relaxation and admissible estimate (merge operator, edge relaxation, state ranking, negative values, forbidden decisions, infeasible problems), every width heuristic of at least one, both cutset types, every frontier that pops greatest bounds first, every way of building the solver (one that is asked for no thread gets one).",
  NOTEST + " Optimality quantifies over all problems, widths, rankings and cutset types; an unsound bound or a lost subproblem shows only on particular combinations.",
  ["src/solver/parallel.rs", "src/mdd/with_all.rs", "src/frontier"],
  [("restricted compilation then relaxed compilation then cutset enumeration of each subproblem", "src/solver/parallel.rs process_one_node, enqueue_cutset"), ("best-first order with early stop on the first node that cannot improve", "src/solver/parallel.rs get_workload"), ("rough upper bound pruning", "src/mdd/with_all.rs branch_on")],
  ["best_value, best_solution, best_lower_bound, best_upper_bound, status"], BASE)
prop("C02", "The barrier solver proves the true optimum",
  "When a search of the barrier solver runs to its end, the reported best value is the value of the best feasible assignment of the problem, the lower and the upper bound both equal it, and the status is Proved. When no feasible assignment exists, no value and no solution are reported and both bounds are the minimal integer.",
  ["inputs", "configurations"], "Every problem with a valid relaxation and admissible estimate, every width heuristic of at least one, both cutset types, every way of building the solver (one that is asked for no thread gets one).",
  NOTEST + " The pruning by thresholds is the new technique of this repository; a threshold that is too high silently discards the optimum on rare recombinations of states only.",
  ["src/solver/barrier.rs", "src/mdd/with_barrier.rs", "src/frontier/no_dup.rs"],
  [("computation of local bounds and thresholds", "src/mdd/with_barrier.rs"), ("filtering of popped nodes by thresholds, cleaning of finished layers", "src/solver/barrier.rs get_workload")],
  ["best_value, best_solution, best_lower_bound, best_upper_bound, status"], BASE)
prop("C03", "A reported solution certifies the reported value",
  "Whenever a solver reports a solution, it assigns every variable of the problem exactly once, replaying it from the initial state follows allowed decisions only, and the initial value plus the transition costs is exactly the reported best value and lower bound. A value is reported if and only if a solution is, and the 'so far' accessors agree with the final ones.",
  ["inputs", "configurations", "fault_sequences"], "Every problem and configuration, both solvers, complete and interrupted searches (the callback may ask to stop at any poll).",
  NOTEST + " The solution is glued together from the path of a subproblem and the best path of a diagram; a wrong gluing or a value taken from a relaxed path shows only on some diagrams.",
  SOLV + DDS, [("best path extraction", "src/mdd/with_all.rs, src/mdd/with_barrier.rs best_solution"), ("incumbent update", "src/solver/*.rs maybe_update_best")],
  ["best_value, best_solution, best_value_so_far, best_solution_so_far, best_lower_bound"], BASE)
prop("C04", "Bounds reported by an interrupted search are sound",
  "However early a search is interrupted, the reported lower bound is at most and the reported upper bound at least the true optimum, and the lower bound does not exceed the upper bound. The status is Interrupted only if the callback asked to stop, and a status of Proved comes with the proved optimum. Before any search nothing is claimed: no value, no solution, extreme bounds.",
  ["inputs", "fault_sequences"], "Every problem and configuration with one worker, and every point at which the interruption callback may ask to stop (from some poll on, or at one poll only).",
  NOTEST + " Interruption points are a quantifier of their own: the bound must cover the node being processed, the open ones and the incumbent at every one of them.",
  SOLV, [("bound computed at the interruption from incumbent, ongoing and open nodes", "src/solver/*.rs get_workload")],
  ["best_lower_bound, best_upper_bound, ResolutionStatus"], BASE)
prop("C05", "The parallel solver is optimal under every schedule",
  "With any number of workers and under any interleaving of them, a search of the parallel solver that runs to its end reports the true optimum with a matching solution, equal bounds and the status Proved.",
  ["inputs", "schedules", "configurations"], "Every problem and configuration, 2-4 workers, every interleaving of the synchronisation operations of the workers.",
  NOTEST + " A lost update of the incumbent or a premature end of the search depends on the interleaving, which the OS rarely varies.",
  ["src/solver/parallel.rs"], [("critical section with incumbent, frontier and number of ongoing nodes", "src/solver/parallel.rs Critical"), ("termination when nothing is open or ongoing", "src/solver/parallel.rs get_workload")],
  ["best_value, best_solution, bounds, status"], BASE + SCHED)
prop("C06", "The barrier solver is optimal under every schedule",
  "With any number of workers and under any interleaving of them, a search of the barrier solver that runs to its end reports the true optimum with a matching solution, equal bounds and the status Proved.",
  ["inputs", "schedules", "configurations"], "Every problem and configuration, 2-4 workers, every interleaving of the synchronisation operations of the workers (critical section, monitor and the per-layer locks of the shared thresholds).",
  NOTEST + " Workers prune with thresholds that others publish while their diagrams are still being built; whether a prune is sound depends on the order of these reads and writes.",
  ["src/solver/barrier.rs", "src/mdd/with_barrier.rs"], [("shared per-layer thresholds", "src/solver/barrier.rs barriers"), ("critical section", "src/solver/barrier.rs Critical")],
  ["best_value, best_solution, bounds, status"], BASE + SCHED)
prop("C07", "Every search terminates, under every schedule",
  "A search always ends: no worker waits forever, no interleaving deadlocks or livelocks, no panic escapes, and no more workers run than were asked for. Once the interruption callback asked to stop, all workers stop: the one that was told starts nothing more, any other one at most the subproblem it had already taken, and the status is Interrupted.",
  ["inputs", "schedules", "fault_sequences", "configurations"], "Every problem and configuration of both solvers, 1-4 workers, every interleaving, complete and interrupted searches.",
  NOTEST + " A missed wake-up needs a particular interleaving of the last two workers.",
  SOLV, [("monitor that parks starving workers, notified when a node is finished", "src/solver/*.rs monitor, notify_node_finished")],
  ["maximize and maximize_with_interrupt return"], BASE + SCHED + "Non-termination is observed as: no runnable worker, a budget of scheduling points, or a budget of callbacks that is used up.")
prop("C08", "Interrupted parallel searches report sound bounds and solutions",
  "When a search with several workers is interrupted at any point and under any interleaving, the reported bounds enclose the true optimum, the reported solution certifies the reported lower bound, and a search that was not stopped reports the proved optimum.",
  ["inputs", "schedules", "fault_sequences"], "Every problem and configuration of both solvers, 2-4 workers, every interleaving, every poll at which the callback may ask to stop (for good, or only once).",
  NOTEST + " The subproblems which other workers hold when the search is stopped must be accounted for in the bound.",
  SOLV, [("per-worker upper bounds", "src/solver/*.rs upper_bounds"), ("interruption flag", "src/solver/*.rs interrupted")],
  ["best_lower_bound, best_upper_bound, best_solution, status"], BASE + SCHED)
prop("C09", "A relaxed diagram bounds its subproblem from above",
  "After a relaxed compilation with a known lower bound, the best value of the diagram is at least the value of the best completion of the subproblem whenever that value exceeds the lower bound. If the diagram says it is exact, its best value (when it exceeds the lower bound) is that of the best completion and its solution is feasible and worth it.",
  ["inputs", "configurations"], "Every subproblem (root or inner) of every problem, every width and lower bound, both diagram types and cutset types, fresh or reused diagram objects, with or without sound thresholds already stored.",
  NOTEST + " Soundness of the bound depends on which nodes are merged, pruned by the estimate or by a threshold.",
  DDS, [("merge of the least promising nodes of a layer", "src/mdd/*.rs maybe_squash / relax"), ("exactness flags", "src/mdd/node_flags.rs")],
  ["best_value, best_solution, is_exact"], BASE)
prop("C10", "A restricted diagram never claims more than is feasible",
  "After a restricted compilation, the best value (if any) is that of a feasible completion of the subproblem, the solution replays to exactly that value, and it never exceeds the best completion. If the diagram says it is exact, no completion better than both its best value and the given lower bound exists.",
  ["inputs", "configurations"], "Every subproblem of every problem, every width and lower bound, both diagram types, fresh or reused diagram objects, with or without sound thresholds already stored.",
  NOTEST + " A restriction that forgets to clear its exactness makes the solver skip the relaxation and lose the optimum, on narrow diagrams only.",
  DDS, [("deletion of the least promising nodes of a layer", "src/mdd/*.rs restrict"), ("exactness", "src/mdd/*.rs is_exact")],
  ["best_value, best_solution, is_exact"], BASE)
prop("C11", "An exact or wide enough diagram solves its subproblem",
  "An exact compilation, or a relaxed or restricted one whose width limit is at least the widest layer, says it is exact; if the best completion beats the given lower bound it is found, with a solution that is feasible and worth it.",
  ["inputs", "configurations"], "Every subproblem of every problem, all three compilation types, lower bounds below, at and above the optimum, both diagram types, fresh or reused diagram objects, with or without sound thresholds already stored.",
  NOTEST, DDS, [("layer by layer compilation with deduplication of states", "src/mdd/*.rs compile, branch_on"), ("longest path propagation", "src/mdd/*.rs")],
  ["best_value, best_solution, is_exact"], BASE)
prop("C12", "Cutset nodes are exact subproblems with valid bounds",
  "Every node of the cutset of a relaxed diagram that is not exact is a real subproblem: its path extends the path of the compiled subproblem with allowed decisions on distinct variables, leads to its state and is worth its value. Its upper bound is at least the value of every completion of it that beats the lower bound, and it lies strictly below the compiled subproblem. No state is delivered twice, the cutset is delivered once. The bound of a node is no weaker than that of the whole diagram nor (unless terminal) than its value plus its estimate. A last-exact-layer cutset lies in the layer right above the first one with a merge, a frontier cutset nowhere above it.",
  ["inputs", "configurations"], "Every subproblem of every problem, every width, lower bound, both cutset types, both diagram types, fresh or reused diagram objects, with or without sound thresholds already stored.",
  NOTEST + " Local bounds come from a backward pass over a merged diagram; an edge missed there makes a bound too low on particular shapes only.",
  DDS, [("cutset computation (last exact layer / frontier)", "src/mdd/*.rs compute_*cutset"), ("local bounds", "src/mdd/*.rs compute_local_bounds"), ("path of a node", "src/mdd/*.rs")],
  ["drain_cutset"], BASE)
prop("C13", "The cutset covers every improving solution",
  "When a relaxed diagram is not exact, every completion of the compiled subproblem which is better than the lower bound goes through a node of the cutset, so that exploring the cutset loses nothing.",
  ["inputs", "configurations"], "Every subproblem of every problem, every width, lower bound and cutset type, both diagram types, fresh or reused diagram objects, with or without sound thresholds already stored.",
  NOTEST + " Coverage is a statement about all paths of the diagram.",
  DDS, [("cutset computation", "src/mdd/*.rs"), ("pruning", "src/mdd/*.rs branch_on, filter_with_barrier")],
  ["drain_cutset"], BASE)
prop("C14", "Compiled diagrams respect the width limit",
  "A restricted or relaxed compilation never expands more nodes in a layer below the first than the width limit allows (relaxed diagrams may exceed it only in the layer right below the root of the subproblem), and the number of nodes it reports to have explored is the number of nodes it expanded.",
  ["inputs", "configurations"], "Every subproblem of every problem, every width of at least one, both diagram types, fresh or reused diagram objects, with or without sound thresholds already stored.",
  NOTEST, DDS, [("width enforcement", "src/mdd/*.rs squash_if_needed / maybe_squash"), ("explored counter", "src/mdd/*.rs get_explored")],
  ["calls of the domain enumeration, get_explored"], BASE)
prop("C15", "Models are called within their contract",
  "The library only asks for domains of the variable announced for the layer, only takes decisions it was offered, merges only non-empty sets of at least one state of the same layer, and relaxes exactly the edges that lead into a merged state, with the cost of that edge.",
  ["inputs", "configurations"], "Every problem, subproblem, width and compilation type, both diagram types.",
  NOTEST + " Users write relaxations against this protocol; an edge that is redirected twice or not at all makes bounds invalid for relaxations that alter costs.",
  DDS, [("redirection of the edges of merged nodes", "src/mdd/*.rs relax")],
  ["calls of merge, relax, transition, transition_cost, for_each_in_domain"], BASE)
prop("C16", "Published thresholds never discard an improving solution",
  "Every threshold that a relaxed compilation publishes for a state is sound: a path that reaches the state with a value which the threshold discards cannot be completed to anything better than what is kept, that is the known lower bound, the value of the diagram if it is exact, and the best completions of its cutset.",
  ["inputs", "configurations"], "Every subproblem of every problem, every width, lower bound and valid subproblem bound, both cutset types, fresh or reused diagram objects; histories of compilations on shared thresholds are covered by C17.",
  NOTEST + " A threshold computed in one diagram prunes in another one; it is a statement about all the paths that may ever reach the state.",
  ["src/mdd/with_barrier.rs"], [("threshold computation", "src/mdd/with_barrier.rs compute_thresholds"), ("threshold use", "src/mdd/with_barrier.rs filter_with_barrier")],
  ["shared thresholds (BarrierInfo), drain_cutset"], BASE)
prop("C17", "No exploration order of subproblems loses the optimum",
  "Whatever the order in which open subproblems are processed, and whether or not a restricted diagram is compiled first, at every moment the incumbent or some open subproblem can still reach the optimum, the incumbent is never above it, and the process ends with it.",
  ["inputs", "histories"], "Every problem, every order of processing, every alternation of diagram objects that share their thresholds, both diagram types and cutset types, every width.",
  NOTEST + " The solvers only ever use the best-first order; diagrams are a public building block which other search strategies rely on.",
  DDS, [("cutsets, bounds and thresholds together", "src/mdd/with_barrier.rs, src/mdd/with_all.rs")],
  ["compile, drain_cutset, best_value, is_exact"], BASE + "The driving loop is the harness's own and follows the threshold protocol of the solver.")
prop("C18", "The simple frontier is a faithful priority queue",
  "The simple frontier delivers exactly the subproblems that were pushed, unaltered and each once, in decreasing order of upper bound and, among equal bounds, best ranked states first. Its length is always the number of subproblems that can still be popped, and clearing empties it.",
  ["histories"], "Every sequence of push, pop and clear operations, every upper bound (the extreme integers included), every ranking.",
  NOTEST + " It is a statement over histories of operations.",
  ["src/frontier/simple.rs", "src/frontier/mod.rs"], [("comparison by bound then rank", "src/frontier/mod.rs MaxUB")], ["push, pop, len, clear"],
  "Generated histories against a reference multiset; held on all of them.")
prop("C19", "The no-duplicate frontier keeps the best copy of each state",
  "The no-duplicate frontier holds each state at most once, with the greatest value pushed for it, a path that goes with that value, and the greatest upper bound pushed for it. It delivers each state once, in decreasing order of upper bound and, among equal bounds, best ranked states first; its length is the number of distinct states inside, and clearing it makes it as good as new.",
  ["histories"], "Every sequence of push, pop and clear operations with repeated states, values and bounds in any order (the extreme integers included), every ranking.",
  NOTEST + " The heap positions, the recycled cells and the state index must stay consistent over every history of updates in place.",
  ["src/frontier/no_dup.rs", "src/frontier/mod.rs"], [("updatable binary heap with a state index and recycled cells", "src/frontier/no_dup.rs")], ["push, pop, len, is_empty, clear"],
  "Generated histories against a reference map; held on all of them.")
prop("C20", "Bitset iteration, bitset order and matrix cells are right",
  "Iterating over a bitset yields exactly its members in increasing order and ends; the wrapper that orders bitsets is the lexicographic order of their bits, a total order whose equality agrees with it. Every cell of a matrix holds the last value written at its row and column, whatever is written elsewhere.",
  ["inputs", "histories"], "Every bitset of any capacity (empty, one word, several words, exact multiples of the word size, complemented), every pair of them also of different capacities, every rectangular matrix and sequence of writes.",
  "The two documentation tests check one 5-bit set each; word boundaries and empty words are never reached.",
  ["src/utils.rs"], [("word-wise iteration and comparison", "src/utils.rs BitSetIter, LexBitSet"), ("row-major addressing", "src/utils.rs Matrix")], ["next, cmp, ==, index"],
  "Generated inputs against vectors of booleans and a map; held on all of them.")
prop("C21", "Search statistics count what was really explored",
  "The reported number of expanded diagram nodes is the number of nodes whose domain was enumerated during the search, over all workers. The reported number of explored subproblems is the number that were processed; with several workers it may also count subproblems discarded when they were taken.",
  ["inputs", "schedules", "configurations"], "Every problem and configuration of both solvers, 1-4 workers, every interleaving, complete and interrupted searches.",
  NOTEST + " The counters are summed by concurrent workers.",
  SOLV, [("counters in the critical section", "src/solver/*.rs explored, explored_dd")], ["get_explored, get_explored_dd"], BASE + SCHED)
prop("C22", "Repeated searches on one solver stay sound",
  "Whatever sequence of complete and interrupted searches runs on one solver, after each of them the bounds enclose the true optimum, the solution certifies the lower bound, the incumbent never gets worse, and a search reported as Proved comes with the optimum.",
  ["histories", "schedules", "fault_sequences"], "Every sequence of up to four searches (complete, or interrupted at any poll) on one solver, both solvers, 1-4 workers, every interleaving.",
  NOTEST + " It quantifies over histories of searches.",
  SOLV, [("state kept between searches: incumbent, frontier, counters, thresholds, interruption flag", "src/solver/*.rs initialize")], ["best_value, bounds, status after each call"],
  BASE + SCHED + "A search after an interrupted one is not required to resume it.")

EXTRA = os.path.join(V, "tools", "meta_models.py")
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())

prop("C34", "A search explores exactly what best-first search needs",
  "With one worker, the subproblems a solver starts are exactly those of the algorithm it documents, in this order: open subproblems by decreasing bound, leaving aside those which cannot beat the incumbent and, for the barrier solver, those which a stored threshold covers; forgetting the thresholds of finished layers changes nothing. The barrier solver never explores a state again unless it is reached with another value. With any number of workers, only states that the problem can reach are explored.",
  ["inputs", "configurations", "fault_sequences"], "Every problem and configuration of both solvers, complete searches and any prefix of them.",
  NOTEST + " Wasted work is invisible in the result; it is what the thresholds and the order are for.",
  SOLV, [("selection of the next subproblem", "src/solver/*.rs get_workload"), ("filter of the cutset by the incumbent", "src/solver/*.rs enqueue_cutset"), ("thresholds of popped nodes, cleaning of layers", "src/solver/barrier.rs get_workload")],
  ["order of the calls of max_width, get_explored_dd, best_value"], BASE + "The reference loop is written in the harness over the library's own diagrams and frontiers (decided by C09-C19). What depends on which of several equal nodes comes first is not compared.")
prop("C35", "Bounds only improve while a search goes on",
  "The later a search is stopped, the better it is: stopped after more polls, a search with one worker reports a lower bound that is not lower, an upper bound that is not higher, no fewer nodes, and the same solution for the same value; its upper bound is no higher than the best bound of an open subproblem, or the lower bound if that is higher. With several workers, a search that is stopped after its first subproblem was finished reports bounds at least as tight as those after that subproblem alone.",
  ["inputs", "schedules", "fault_sequences"], "Every problem and configuration of both solvers, every number of polls before the stop, 1-4 workers, every interleaving.",
  NOTEST + " An upper bound may be sound and still go up again, when a bound is not inherited or an idle worker counts as busy.",
  SOLV, [("bound of a cutset node capped by that of its parent", "src/solver/*.rs enqueue_cutset"), ("bound at the interruption", "src/solver/*.rs get_workload")],
  ["best_lower_bound, best_upper_bound, best_solution, counters"], BASE + SCHED)
prop("C36", "Diagrams give up only the least promising nodes",
  "A compilation expands every node of a layer except those whose value a stored threshold covers, those whose estimate cannot beat the given lower bound, and, only when the layer is too wide, the least promising ones, by value and then by rank: a restricted diagram drops them, a relaxed one merges them. Nothing else is expanded, and nothing twice.",
  ["inputs", "configurations"], "Every subproblem of every problem, restricted and relaxed compilations of every width and lower bound, both diagram and cutset types, fresh or reused objects, with or without thresholds stored before.",
  NOTEST + " A wrong choice of nodes leaves every bound valid and only makes the search much slower, or thresholds and estimates useless.",
  DDS, [("sorting of a layer, truncation or merge", "src/mdd/*.rs restrict, relax"), ("pruning by estimate and by threshold", "src/mdd/*.rs compile")],
  ["calls of for_each_in_domain, merge, relax"], BASE + "Where a node below a merge is met by a threshold, the choice in that layer is left open.")
prop("C37", "A search depends on the problem only, not on its wording",
  "With one worker a search is reproducible: run again, built through any constructor or started through either entry point, it reports the same value, solution, bounds and counts. Renaming the variables or the decision values renames the solution and changes nothing else; shifting the initial value shifts values and bounds; scaling all costs scales them.",
  ["inputs", "configurations"], "Every problem and configuration of both solvers, complete and interrupted searches.",
  NOTEST + " It relates runs to each other, so it holds for large problems where no oracle is needed, and sees dependence on addresses, identifiers or absolute magnitudes.",
  SOLV + DDS, [("constructors and entry points", "src/solver/*.rs custom, new, with_nb_threads, maximize, maximize_with_interrupt"), ("comparisons of values and bounds", "src/mdd/*.rs, src/frontier/*.rs")],
  ["best_value, best_solution, bounds, counters"], BASE + "Hash maps of the library are seeded with a constant, which reproducibility relies on. Shifts are skipped where an estimate is the minimal integer (it stops being minimal once something is added).")
prop("C38", "The experiment driver reports and returns the truth",
  "solve_timeout runs the solver, cutset type, width and number of workers (all cores by default, one where none is asked for) that it is given, stops when its time is out and not before, prints exactly one line of eleven columns that agree with the search (optimum if proved, enclosing bounds otherwise, relative gap, numbers of subproblems and nodes), and returns the upper bound it prints.",
  ["inputs", "configurations", "schedules", "fault_sequences"], "Every problem and configuration, time that suffices, that is zero, or that runs out during any chosen subproblem.",
  NOTEST + " The driver is where options, search and report meet.",
  ["src/xputils.rs"], [("solve_timeout and gap", "src/xputils.rs")], ["standard output, returned value, calls of the model"], BASE + SCHED)

prop("C39", "The order of the variables may be chosen as the search goes along",
  "Which variable comes next may depend on the states of the layer, so that different subproblems take the variables in different orders: both solvers still end with the optimum, equal bounds and a feasible solution that brings the value they report (enclosing bounds when interrupted), and the diagrams still bound or solve the problem. The choice is asked for a layer at a time, and only states with the same variables left meet in a layer or a merge.",
  ["inputs", "configurations", "schedules"], "Every problem of values and pairs of values, every rule of choosing, both solvers, frontiers and cutset types, every width, number of workers, interleaving and interruption.",
  NOTEST + " All examples take the variables in a fixed order, so nothing ever ran with orders that differ between subproblems.",
  SOLV + DDS, [("choice of the variable of a layer", "src/mdd/*.rs compile (next_variable)"), ("thresholds of states met in several orders", "src/mdd/barrier.rs")],
  ["best_value, best_solution, bounds, status", "calls of next_variable and merge"], BASE + SCHED)
prop("C40", "States are the same exactly when they are equal",
  "Only equality tells states apart: no two equal states stand in one layer of a diagram, in a cutset or in the no-duplicate frontier, none is expanded twice in a layer, and different ones are never taken for each other, however poor their hash function and whatever they carry besides what equality compares. Both solvers prove the optimum and the diagrams bound or solve the problem all the same.",
  ["inputs", "configurations", "schedules", "histories"], "Every problem in which different paths lead to equal states that do not look the same, with hash functions of all qualities (a constant one included), both solvers, frontiers and cutset types, every width, number of workers, interleaving and interruption.",
  NOTEST + " Users implement equality and hash themselves, and a shortcut by hash or address goes wrong for rare pairs of states only.",
  SOLV + DDS + ["src/frontier/no_dup.rs"], [("nodes of a layer by state", "src/mdd/*.rs branch_on"), ("kept node that equals a merged one", "src/mdd/*.rs relax"), ("thresholds by state", "src/mdd/with_barrier.rs, src/solver/barrier.rs"), ("nodes by state", "src/frontier/no_dup.rs")],
  ["calls of next_variable and for_each_in_domain", "drain_cutset", "best_value, best_solution, bounds, status"], BASE + SCHED + " Histories of the no-duplicate frontier with such states are part of C19.")
prop("C41", "A diagram reports exactly what its layers contain",
  "The best value of a diagram is that of the longest path through the nodes it kept, merged ones included, and its solution is such a path. A diagram that gave nothing up calls itself exact; one that merged nodes never does so when all its longest paths meet a merged node, and does so when no merged node leads to its best node (the diagram with thresholds: when some longest path to its best node meets none). The bound of a cutset node is no weaker than the longest path through it, its value plus its estimate, or the best value, and some path leads from it to the end.",
  ["inputs", "configurations"], "Every subproblem of every problem, all compilation types, every width and lower bound, both diagram and cutset types, fresh or reused objects, with or without thresholds stored before.",
  NOTEST + " A bound may be valid and still looser than what the diagram knows: every search ends with the optimum, after needless work.",
  DDS, [("longest paths down and up", "src/mdd/*.rs branch_on, relax, compute_local_bounds"), ("exactness", "src/mdd/*.rs has_exact_best_path"), ("bounds of the cutset", "src/mdd/*.rs _drain_cutset")],
  ["best_value, best_solution, is_exact, drain_cutset, calls of for_each_in_domain, merge, relax"], BASE + "Where a node below a merge is met by a threshold, the layers cannot be rebuilt and nothing is demanded.")
prop("C42", "What has been dealt with is let go of",
  "A compilation leaves the diagram with nothing of the compilations before it. A frontier holds the nodes that can still be popped; the one without duplicates may keep what it popped until the place is needed again, and neither holds anything once cleared. When a search is over, the solver holds no subproblem; the barrier solver drops the thresholds of a layer as soon as neither that layer nor one above it has open subproblems, at the latest when it takes the next subproblem, so that none but those of the last layer are left when the search is complete.",
  ["inputs", "histories", "configurations"], "Every sequence of compilations by one diagram, every history of a frontier, every search of a solver, the first one or a later one; thresholds: one worker.",
  NOTEST + " Answers stay right when memory is not given back: it only grows with the search, until there is none left.",
  SOLV + DDS + ["src/frontier/no_dup.rs", "src/frontier/simple.rs"], [("clearing of thresholds", "src/solver/barrier.rs get_workload: lowest_active_layer"), ("open subproblems of each layer", "src/solver/barrier.rs enqueue_cutset, get_workload, notify_node_finished"), ("clear", "src/mdd/*.rs clear, src/frontier/*.rs pop, clear")],
  ["number of living states (made, cloned, dropped), by layer"], BASE + "What is open at a given time is taken from the reference search of C34, where that does not depend on ties.")

prop("C43", "Thresholds are as strong as the diagram justifies",
  "After a relaxed compilation that reaches its last layer, every exact node (for the last exact layer cutset: of that layer or above it) has a stored threshold at least as high as its layers justify: for a node that its estimate pruned, what its estimate cannot lift above the lower bound; for a node of the cutset, its value, or, if the longest path down from it does not attain the lower bound, what that path cannot lift to it; and for every node no more than what its successors justify, less the cost of the arc. A node outside the cutset whose threshold is new is stored as dealt with.",
  ["inputs", "configurations"], "Every subproblem of every problem, every width and lower bound, both cutset types, fresh or reused diagram objects, with or without thresholds stored before.",
  NOTEST + " A threshold that is too low is sound: nothing but the work it fails to save tells. Saving that work is what the barrier is for.",
  ["src/mdd/with_barrier.rs", "src/mdd/node_flags.rs"], [("propagation of thresholds", "src/mdd/with_barrier.rs compute_local_bounds_and_theta"), ("publication", "src/mdd/with_barrier.rs try_update_barrier, lel_depth")],
  ["shared thresholds (BarrierInfo: theta, explored), calls of for_each_in_domain, merge, relax"], BASE + "Where a node below a merge is met by a threshold, or a node saved from a merge is not expanded, the layers cannot be rebuilt and nothing is demanded. Soundness of the same thresholds: C16.")


NA = []
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        q = {k: v for k, v in p.items() if k != "note"}
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
TECH = {"C18": "model-based property testing (stateful)", "C19": "model-based property testing (stateful)"}
def tech(i, p):
    t = TECH.get(p["id"])
    if t: return t
    if "schedules" in p["quantifier"]["over"]:
        return "property-based testing with generated schedules against a reference oracle"
    if "histories" in p["quantifier"]["over"]:
        return "property-based testing over generated histories against a reference oracle"
    return p.get("tech") or "property-based testing against a reference oracle"
m = dict(version=1, setup_cmd="bash setup.sh",
    checks=[dict(property=p["id"], quick_cmd="bash check.sh " + p["id"],
        thorough_cmd="VERIF_TIER=thorough bash check.sh " + p["id"],
        technique=tech(i, p), level="exploration", level_note=p["note"].strip()) for i, p in enumerate(P)],
    not_applicable=NA,
    notes="No hooks are needed in /repo: the synchronisation of the solvers is observed through a stand-in for parking_lot, patched in by the harness crate. Known findings and fixes: known_findings.json.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(P), "properties")
