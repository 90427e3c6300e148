# properties C23 and up: command line and example models
TS = "examples/tsptw/"; SR = "examples/srflp/"; PS = "examples/psp/"
NOEX = "No test touches the examples: their models, relaxations and readers are only ever compiled."
KF = (" Defects of the unrepaired examples are known findings (files under examples/ may not be changed here): a failure is put down to one only if it "
      "disappears when just the defective results are replaced; everything else is a violation.")
MB = ("Generated-input search, not proof: the property held on every generated case. The oracle is a brute force over all assignments written from the definition of the problem, not from the model. ")
prop("C23", "The command line means what it says",
  "Every combination of the documented options, in any order and in short, long and attached spellings, is read as the values given, with the documented defaults (timeout 60, solver parallel, cutset lel, no width, no thread number) for those left out. Unknown names, malformed numbers, missing files and unknown flags are refused. The names of solvers, cutset types and compilation types are read and shown as the same words.",
  ["inputs"], "Every combination, order and spelling of options with any values, and wrong command lines.",
  "The tests never parse a command line; a swapped letter or default silently runs another algorithm.",
  ["src/xputils.rs", "src/prelude.rs"], [("option declarations", "src/xputils.rs Args"), ("FromStr and Display", "src/xputils.rs SolverType, src/prelude.rs CutsetType")], ["Args::from_iter_safe, FromStr, Display"],
  "Generated command lines against the values they were built from; held on all of them.")
def optimum(id, name, d, dom):
    prop(id, f"The {name} example finds the true optimum",
      f"For every {name} instance, either solver with either cutset, any frontier and width proves exactly the optimum that the definition of the problem gives, with a solution worth it, and reports infeasibility exactly when there is no feasible solution.",
      ["inputs", "configurations"], f"Every {name} instance{dom}, both solvers, both cutsets, both frontiers, fixed widths and the example's own width strategy with its factor.",
      NOEX + " A wrong transition, cost, estimate, merge or ranking shows only on instances where merged states or pruned nodes matter.",
      d, [("dynamic programming model", d[0]), ("relaxation", d[1])], ["best_value, best_solution, bounds, status"],
      MB + "Instances are small (up to 7 variables), larger ones are not enumerated." + KF)
optimum("C24", "TSPTW", [TS + "model.rs", TS + "relax.rs", TS + "instance.rs", TS + "heuristics.rs"], " (travel times with or without triangle inequality, any windows)")
optimum("C25", "SRFLP", [SR + "model.rs", SR + "relax.rs", SR + "instance.rs", SR + "heuristics.rs"], " (non-negative lengths and flows, also large ones)")
optimum("C26", "PSP", [PS + "psp.rs", PS + "psp.rs", PS + "utils.rs"], " whose changeover costs satisfy the triangle inequality (all of resources/psp do)")
def relaxes(id, name, d, dom):
    prop(id, f"The {name} relaxation and estimate are sound",
      f"Along any sequence of expansions and merges of {name} states, a state that stands for a set of partial solutions allows every completion of each of them at a cost that is not worse, for every single step and in total; its estimate, while a variable is left, is at least the value of the best completion. Unmerged states have exactly the completions and costs of the problem.",
      ["inputs", "histories"], f"Every {name} instance{dom}, every sequence of layer expansions with any merges of states of a layer, merged states included.",
      NOEX + " Merging merged states again, and waiting or optional parts of merged states, arise in long diagrams only.",
      d, [("merge operator", d[1]), ("estimate", d[0])], ["merge, estimate, transition, transition_cost, for_each_in_domain"],
      MB + "Completions of a merged state are enumerated with the model itself." + KF)
relaxes("C27", "TSPTW", [TS + "model.rs", TS + "relax.rs", TS + "state.rs"], "")
relaxes("C28", "SRFLP", [SR + "model.rs", SR + "relax.rs", SR + "state.rs"], "")
relaxes("C29", "PSP", [PS + "psp.rs", PS + "psp.rs"], " whose changeover costs satisfy the triangle inequality")
prop("C30", "Instance files are read faithfully",
  "The model built from an instance file offers exactly the decisions and charges exactly the costs of the instance that the file states, whatever the layout that the format allows: spacing, line ends, comments and blank lines where the format has them, separators, decimals (up to four, exact), full or half flow matrices, an optional stated optimum.",
  ["inputs"], "Every instance of the three problems up to more than 64 cities or departments and 100 periods, in every allowed layout.",
  NOEX + " Layout and magnitude of numbers vary over more files than any test samples.",
  [TS + "instance.rs", SR + "instance.rs", PS + "psp.rs", PS + "utils.rs"], [("line by line readers", TS + "instance.rs, " + SR + "instance.rs, " + PS + "psp.rs")], ["domains and transition costs along a walk"],
  "Generated instances written out and read back, observed through the model." + KF)
prop("C31", "A run of an example program prints the truth",
  "Running an example program on an instance file exits with success and prints exactly one line of eleven columns: name of the instance, solver, status, time, memory, best value, bounds, gap and counters. A proved run shows the optimum as best value and as both bounds with a gap of zero; a run out of time shows bounds that enclose the optimum and a gap that is their distance relative to the larger of them. Wrong command lines and missing files end with failure and no result line.",
  ["inputs", "configurations", "fault_sequences"], "Every instance, every combination of options including no time at all, feasible or not, any file name.",
  "No test runs a program; the glue between options, model, solver and report is exercised only by hand.",
  ["src/xputils.rs", TS + "main.rs", SR + "main.rs", PS + "main.rs"], [("report line and gap", "src/xputils.rs solve_timeout, gap"), ("main functions", "examples/*/main.rs")], ["exit code and standard output"],
  MB + "Threads run under the scheduler of the operating system here.")
prop("C32", "The time guard ends a process one way or the other",
  "A guarded action that ends in time makes the process succeed without the exit handler ever starting; otherwise the exit handler runs exactly once, to its end, and the process fails. No run does a bit of both, however close the two events are.",
  ["schedules"], "Every duration of the action, the allowance and the exit handler, and every interleaving of the end of the action with the expiry.",
  "It is a race between two threads that both end the process.",
  ["src/xputils.rs"], [("switch between action and expiry", "src/xputils.rs timeout")], ["exit code and output of the process"],
  "Generated durations, many within milliseconds of each other; schedules are those of the operating system.")
prop("C33", "Width strategies scale and rankings are orders",
  "Each example's width strategy allows at least one node in every state and is multiplied exactly by its factor; the fixed width is the number given. Each example's ranking is a total preorder on its states, merged ones included, so that heaps and sorts built on it are well defined.",
  ["inputs"], "Every instance of the three problems, every factor, every set of reachable or merged states.",
  NOEX + " An ordering that is not transitive makes sorts panic and heaps misbehave on particular sets of states only.",
  [TS + "heuristics.rs", SR + "heuristics.rs", PS + "psp.rs", "src/heuristics/mod.rs"], [("compare", "examples/*/heuristics.rs, " + PS + "psp.rs"), ("max_width", "examples/*/heuristics.rs, " + PS + "psp.rs")], ["compare, max_width"],
  "Generated instances and states; held on all of them.")
