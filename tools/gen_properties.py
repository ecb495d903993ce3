#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json (kept in one place so that they stay in step)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, tech, note, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **({"state": state} if state else {}), **({"observe_at": observe} if observe else {}), hook_needed=None),
                  tech=tech, note=note))

S = "src/candy/core/"
prop("C01", "A solve verdict is correct for every formula and configuration",
     "For every CNF formula and every combination of solver options, a completed solve answers satisfiable only if the formula has a model and unsatisfiable only if it has none. An uninterrupted solve always completes with one of the two verdicts.",
     ["inputs", "configurations"], "all CNF formulas; all branching heuristics (VSIDS, VSIDSC, LRB, RSIL in all modes), propagation variants, pre- and inprocessing, restart, clause-database and decay settings",
     "the tests solve a fixed set of small instances with a few configurations; wrong answers need particular combinations of formula structure, inprocessing and clause-database timing",
     [S + "Solver.h", S + "Trail.h", S + "clauses/ClauseDatabase.h", "src/candy/systems/propagate/Propagate.h", "src/candy/systems/propagate/StaticPropagate.h", "src/candy/systems/learning/ConflictAnalysis.h", "src/candy/simplification/Subsumption.h", "src/candy/simplification/VariableElimination.h", "src/candy/systems/branching"],
     [("search loop", S + "Solver.h"), ("propagation", "src/candy/systems/propagate"), ("conflict analysis", "src/candy/systems/learning/ConflictAnalysis.h"), ("inprocessing", "src/candy/simplification")],
     "online monitor over random solves (models evaluated, UNSAT confirmed by an independent solver), ASan/UBSan share",
     "every verdict of the executed cases is confirmed independently; unsatisfiable answers beyond the reference solver's budget are counted as undecided", observe=["verdict of solve()", "model", "independent solver"])
prop("C02", "Every reported model is complete and satisfies every input clause",
     "Whenever a solve answers satisfiable, the reported model assigns every variable of the input formula exactly one value and satisfies every input clause, including the clauses and variables that preprocessing removed. All ways to read the model agree.",
     ["inputs", "configurations"], "all satisfiable formulas, in particular those whose variables are eliminated and reconstructed; all pre- and inprocessing settings",
     "model reconstruction is only exercised by a handful of instances in the tests, but is wrong only for particular elimination orders",
     [S + "CandySolverResult.h", "src/candy/simplification/VariableElimination.h", S + "Solver.h"],
     [("model reconstruction", "src/candy/simplification/VariableElimination.h"), ("model setup", S + "CandySolverResult.h")],
     "online monitor: every model evaluated on the untouched input clauses, accessors cross-checked, ASan/UBSan share", "exact for the executed cases", observe=["getModelLiterals()", "value()", "satisfies()"])
prop("C03", "Certificates of unsatisfiability are valid proofs of the input formula",
     "Whenever a sequential solve with certificate output answers unsatisfiable, the written file is a valid DRAT proof of the input formula. This holds for every solver configuration reachable from the command line, including preprocessing, inprocessing and clause deletion.",
     ["inputs", "configurations"], "all unsatisfiable formulas and all sequential solver configurations",
     "no existing test checks an emitted certificate step by step under varying configurations; a missing or premature line is invisible in the verdict",
     ["src/candy/core/clauses/ClauseDatabase.h", "src/candy/core/clauses/Certificate.h", "src/candy/simplification/Subsumption.h", "src/candy/simplification/VariableElimination.h"],
     [("proof lines", "src/candy/core/clauses/Certificate.h"), ("lemmas and deletions", "src/candy/core/clauses/ClauseDatabase.h")],
     "offline monitor: every lemma and deletion of the recorded proof checked (RUP/RAT) by an independent checker", "exact for the executed cases; deletions of unit clauses are ignored like in other DRAT checkers", observe=["certificate file"])
prop("C04", "The built-in proof checker accepts exactly the valid proofs",
     "The built-in proof checker accepts a DRAT proof file only if it derives the unsatisfiability of the given formula, and it accepts every valid proof, in particular each certificate the solver itself writes. Malformed proof files neither crash it nor get a satisfiable formula declared unsatisfiable.",
     ["inputs"], "all pairs of a formula and a proof text: lemmas, deletions, extension variables, RAT steps, mutated proofs, arbitrary bytes",
     "the tests check one or two hand-written proofs", ["src/candy/core/DRATChecker.h", "src/candy/core/DRATChecker.cc", "src/candy/core/CNFProblem.h"],
     [("proof checker", "src/candy/core/DRATChecker.h")], "differential monitor against a naive checker that propagates from scratch; ASan/UBSan share",
     "exact on small formulas; proofs valid only with a pivot other than the first literal, or with deletions after the database is already refuted, are left open", observe=["result of check_proof()"])
prop("C05", "Incremental solving and assumption cores are sound over every history",
     "For every sequence of adding clauses, assuming literals and solving on one solver instance, each answer is correct for the clauses added so far together with the current assumptions only. A satisfiable answer comes with a model that also satisfies the assumptions; an unsatisfiable answer names a subset of the assumptions that is inconsistent with the clauses. After clearing an instance nothing of the previous problem remains.",
     ["histories", "inputs", "configurations"], "all histories of adding clauses (also over new or previously eliminated variables), changing assumptions, solving, clearing; all configurations",
     "state left over by an earlier solve (eliminated variables, learnt clauses, counters, results) only shows in later calls of particular histories",
     [S + "Solver.h", S + "CandySolverInterface.h", "src/candy/simplification/VariableElimination.h", "src/candy/systems/learning/ConflictAnalysis.h"],
     [("assumptions", S + "Trail.h"), ("final conflict", "src/candy/systems/learning/ConflictAnalysis.h"), ("initialization", S + "Solver.h")],
     "online monitor over random histories; every answer and core checked against the accumulated clauses by an independent solver", "exact for the executed histories", observe=["verdicts", "models", "getConflict()"])
prop("C06", "The IPASIR interface follows its contract for every legal call sequence",
     "For every legal sequence of IPASIR calls on any number of solver instances, each solve returns 10, 20 or 0 and the answer is correct for the clauses added and assumptions made since the last solve; values, failed assumptions and callbacks are as the interface specifies. Assumptions are dropped after each solve, 0 is returned only on requested termination, and variables that occur in no clause can be assumed and queried.",
     ["histories", "inputs"], "all legal call histories on one or several instances, with terminate and learn callbacks set, replaced and removed",
     "the fuzzing target in the repository checks nothing but the assertions; unit tests run a few fixed sequences",
     ["src/candy/ipasir/ipasircandy.cc", "src/candy/ipasir/ipasir.h"], [("IPASIR adapter", "src/candy/ipasir/ipasircandy.cc")],
     "online monitor of random call histories (model of the interface state plus independent solver); ASan/UBSan share", "exact for the executed histories", observe=["return values", "callback invocations"])
prop("C07", "Termination requests stop a solve without a verdict and without damage",
     "When the termination callback asks to stop, the solve returns without a verdict and leaves neither a model nor a conflict behind; without such a request a solve never returns without a verdict. Solving again after any number of interruptions, with more clauses or other assumptions, gives correct answers.",
     ["schedules", "histories"], "all points at which a running solve can be interrupted, followed by all continuations",
     "the point of interruption decides which intermediate state is left behind; the tests interrupt at most once", [S + "Solver.h", S + "Trail.h"],
     [("termination polling", S + "Solver.h")], "online monitor with injected interruptions at chosen polls and independent confirmation of every later answer", "exact for the executed interruption points", observe=["verdict", "result object", "callback polls"])
prop("C08", "Learnt clauses exported through the callback are implied and within the limit",
     "Every clause handed to the learnt-clause callback is a logical consequence of the clauses added so far, independent of the current assumptions and of preprocessing, and has at most as many literals as the given limit. The list of literals is terminated by zero, and every learnt clause within the limit is handed over once, in the order of learning.",
     ["histories", "inputs", "configurations"], "all histories with a learnt-clause callback and any limit", "no test checks the implication of exported clauses under assumptions or after variable elimination",
     [S + "Solver.h", "src/candy/systems/learning/ConflictAnalysis.h", "src/candy/simplification/VariableElimination.h"], [("export of learnt clauses", S + "Solver.h")],
     "online monitor: implication of every exported clause decided by an independent solver; the exports of a repeated unlimited run tell which clauses are due", "exact for the executed histories (at most 60 exported clauses per solve are examined)", observe=["learnt callback"])
prop("C09", "Reading and printing a formula preserves it exactly",
     "A well-formed DIMACS text is read as exactly the set of clauses it denotes, up to duplicate literals and tautologies, whatever its layout, size and channel (file, standard input, pipe, gzip or other supported archive). Printing a formula and reading it again yields the same formula.",
     ["inputs"], "all formulas, layouts (white space, comments, line breaks, headers, numbers with zeros), sizes beyond the reader's buffer, chunkings of the input and compression settings",
     "tests read a few small files; boundaries of the reader's buffer depend on the exact byte positions", ["src/candy/core/CNFProblem.h", "src/candy/core/CNFProblem.cc", "src/candy/utils/StreamBuffer.h"],
     [("parser", "src/candy/core/CNFProblem.cc"), ("buffering", "src/candy/utils/StreamBuffer.h")], "differential monitor: parsed clauses compared with the generator's formula", "exact for the executed inputs; only gzip and plain inputs are generated", observe=["clauses of the problem", "printed text"])
prop("C10", "Malformed or damaged input is rejected and never read as something else",
     "Input that is no well-formed DIMACS text (stray tokens, numbers out of range, a missing end of clause, a bad header, truncated or corrupted archives, a missing file) is rejected with an error. It is never silently read as a different formula, and no sequence of bytes crashes or hangs the reader.",
     ["inputs", "fault_sequences"], "all byte sequences; all truncations and bit flips of archives", "tests cover at most one malformed file", ["src/candy/utils/StreamBuffer.h", "src/candy/core/CNFProblem.cc"],
     [("parser", "src/candy/core/CNFProblem.cc"), ("error handling", "src/candy/utils/StreamBuffer.h")], "fault injection into inputs; acceptance compared with the undamaged formula; ASan/UBSan share", "exact for the executed damages", observe=["parser exception or clauses"])
prop("C11", "The command-line solver obeys the SAT competition output protocol",
     "For every input and option set the command-line solver prints exactly one answer line with a correct verdict, a complete correct value line if and only if models are requested, only comment lines otherwise, and exits with 10 for satisfiable, 20 for unsatisfiable, 0 after a requested self-check and 1 for malformed input. The requested self-checks, certificates and minimized models are delivered and correct.",
     ["inputs", "configurations"], "all formulas, input channels and option combinations of the sequential solver", "the unit tests do not run the executable", ["src/candy/Main.cc", "src/candy/frontend/CLIOptions.cc", "src/candy/core/CandySolverResult.h"],
     [("main program", "src/candy/Main.cc")], "process-level monitor of stdout, stderr and exit codes; verdicts, values and proofs checked independently", "exact for the executed invocations", observe=["standard output", "exit code"])
prop("C12", "A parallel portfolio answers once, correctly and terminates",
     "With any number of threads, the portfolio prints exactly one correct verdict, with the correct value line if requested, and terminates with the matching exit code, whichever thread finishes first and however the threads are delayed. It never crashes, hangs or mixes the results of several threads.",
     ["schedules", "configurations", "inputs"], "all interleavings of the solver threads and the main thread", "the tests never start more than one thread, and races show only under particular schedules", ["src/candy/Main.cc", "src/candy/core/clauses/ClauseAllocator.h"],
     [("thread management and result hand-over", "src/candy/Main.cc")], "process-level monitor under varied thread counts, start delays and core pinning", "sampled interleavings only", observe=["standard output", "exit code"])
prop("C13", "No input, option or call history triggers memory errors or undefined behaviour",
     "No formula, proof, byte sequence, option set or legal call history makes the solver, its interfaces or its tools access memory out of bounds or after release, read uninitialized results, overflow signed integers or run into other undefined behaviour.",
     ["inputs", "histories", "configurations"], "everything the other properties quantify over", "the tests run without sanitizers on a few inputs", ["src/candy"],
     [("clause storage", "src/candy/core/clauses"), ("all components", "src/candy")], "all drivers executed with AddressSanitizer, UndefinedBehaviorSanitizer and checked containers", "only what the executed cases touch; alignment, null, vptr and object-size checks are off because of the project's packed clause layout", observe=["sanitizer reports"])
prop("C14", "Minimized models still guarantee satisfaction",
     "A minimized model is a subset of the model it stems from that, without pruning and projection, satisfies every clause and cannot lose any literal; a requested minimal model has the fewest literals possible. With pruning or projection by gate structure, every assignment of the remaining inputs that agrees with the minimized model extends to a model, and projected models mention no gate outputs.",
     ["inputs", "configurations"], "all satisfiable formulas and models, all combinations of pruning, minimality and projection", "tests minimize the models of two formulas", ["src/candy/minimizer/Minimizer.h", "src/candy/gates/GateAnalyzer.h"],
     [("minimizer", "src/candy/minimizer/Minimizer.h")], "online monitor: subset, coverage, redundancy, exhaustive minimum for small models, extension checks by an independent solver", "extensions are sampled; the minimum is verified for models with at most 14 literals", observe=["getMinimizedModelLiterals()"])
prop("C15", "Gate recognition yields a partition into acyclic functional definitions",
     "For every formula and recognition method, each clause belongs to exactly one of the roots, the remainder or one gate, gates form an acyclic hierarchy, the clauses of a gate mutually block each other, and the output of a gate used in both polarities is determined by its inputs. Recognition leaves the formula unchanged, and merging the roots adds one definition without touching it.",
     ["inputs", "configurations"], "all formulas (with damaged, duplicated and overlapping encodings), recognition methods and numbers of root selections", "tests recognize single clean gates and small random circuits", ["src/candy/gates/GateAnalyzer.cc", "src/candy/gates/GateAnalyzer.h", "src/candy/gates/GateProblem.h", "src/candy/gates/BlockList.h"],
     [("gate recognition", "src/candy/gates/GateAnalyzer.cc"), ("root normalization", "src/candy/gates/GateProblem.h")], "structural monitor of the recognized gates with functional checks by an independent solver", "exact for the executed formulas", observe=["recognized structure"])
prop("C16", "The CNF-to-AIG conversion preserves the set of models",
     "For every formula the generated and-inverter graph is a well-formed acyclic AIGER file with one output, whose inputs are variables of the formula, and it evaluates to one under an input assignment exactly if that assignment extends to a model of the formula. Malformed inputs are refused.",
     ["inputs"], "all formulas and all assignments of the circuit inputs", "the tests do not evaluate generated circuits", ["src/candy/cnf2aig.cc", "src/candy/gates/AIGProblem.h", "src/candy/gates/GateProblem.h"],
     [("conversion", "src/candy/gates/AIGProblem.h"), ("tool", "src/candy/cnf2aig.cc")], "evaluation monitor: generated circuit simulated exhaustively or by sampling and compared with an independent solver", "circuits with more than six inputs are sampled", observe=["AIGER output"])
prop("C17", "Simulation conjectures are exactly the observed constants and equivalences",
     "Random simulation evaluates every reachable gate that is not excluded by a filter exactly once, after its inputs and according to its definition. Its conjectures contain every constant gate and every pair of equivalent gates with the right polarity, each variable at most once, and none that the simulated assignments refute.",
     ["inputs", "configurations"], "all recognized gate structures, clause orders, gate and conjecture filters, randomizations and numbers of rounds",
     "tests simulate a few hand-made gate structures and compare the orders, not the functions", ["src/candy/randomsimulation/RandomSimulator.cc", "src/candy/randomsimulation/ClauseOrder.cc", "src/candy/randomsimulation/Partition.cc", "src/candy/randomsimulation/Propagation.cc", "src/candy/randomsimulation/Conjectures.cc", "src/candy/frontend/RandomSimulationFrontend.h"],
     [("evaluation order", "src/candy/randomsimulation/ClauseOrder.cc"), ("bit-parallel evaluation", "src/candy/randomsimulation/Propagation.cc"), ("partitioning", "src/candy/randomsimulation/Partition.cc")],
     "differential monitor: conjectures compared with the exhaustively evaluated gate functions; ASan/UBSan share", "a conjecture counts as refuted if it fails on some input of a circuit with up to six inputs, or on 5% of the inputs of a larger one (with at least 2048 rounds)", observe=["getEquivalences()", "getBackbones()", "getGateOutputsOrdered()"])
prop("C18", "Abstraction refinement never changes the answer",
     "Solving by abstraction refinement gives the same verdict as plain solving and a complete model of the original formula, whatever was conjectured. After each refinement step the active part of the approximation expresses exactly the conjectures that have not been removed, every clause of it can be deactivated, and removals follow the configured limits.",
     ["inputs", "histories", "configurations"], "all formulas, all (also wrong) conjectures, all sequences of removals, all refinement limits and heuristics",
     "the tests refine a few conjectures and solve instances for which the conjectures hold", ["src/candy/rsar/ARSolver.cc", "src/candy/rsar/Refinement.cc", "src/candy/rsar/ApproximationState.cc", "src/candy/rsar/Heuristics.cc", "src/candy/frontend/SolverFactory.h"],
     [("refinement loop", "src/candy/rsar/ARSolver.cc"), ("encoding", "src/candy/rsar/Refinement.cc"), ("state of the approximation", "src/candy/rsar/ApproximationState.cc"), ("removal heuristic", "src/candy/rsar/Heuristics.cc")],
     "online monitor of refinement histories against the semantics of the conjectures; verdicts and models confirmed independently; ASan/UBSan share", "exact for the executed cases (at most nine conjectured variables in the semantic comparison)", observe=["refinement deltas", "verdict", "model"])
prop("C19", "Command-line options take effect exactly as given or are refused",
     "Every option value inside its documented range takes exactly that effect and no other option changes; values outside of the range, non-numeric values, unknown modes and unknown options are refused with an error exit and without an answer. The solver is built from the selected methods; restarts, deletion of learnt clauses and variable elimination follow the given constants and limits, and methods that are switched off change nothing.",
     ["configurations", "histories"], "all options of the help text with all values; all searches under them", "no test parses command lines or compares a search with its options", ["src/candy/utils/Options.h", "src/candy/utils/Options.cc", "src/candy/frontend/CLIOptions.cc", "src/candy/frontend/CandyBuilder.cc", "src/candy/systems/Restart.h", "src/candy/systems/ReduceDB.h", "src/candy/simplification/VariableElimination.h"],
     [("option parser", "src/candy/utils/Options.h"), ("selection of methods", "src/candy/frontend/CandyBuilder.cc"), ("restarts", "src/candy/systems/Restart.h"), ("deletion", "src/candy/systems/ReduceDB.h")], "process-level monitor: option table read back after random command lines; online monitor of restarts, reductions and eliminations seen through the callbacks against the given option values", "blocked restarts (after 10000 conflicts) and the number of conflicts before reductions are not judged", observe=["help text", "exit code", "learnt-clause and termination callbacks", "getClauseDatabase()"])
prop("C20", "Runs stopped by limits or signals end cleanly and never lie",
     "When a time limit, memory limit or interrupt signal stops the command-line solver, it ends soon afterwards with exactly one answer line; it prints an indeterminate answer with exit code 0 or, if the search was already finished, a correct verdict with the matching exit code and model.",
     ["schedules", "configurations"], "all moments at which a limit or signal can hit the search, sequential and parallel", "tests cannot interrupt the executable", ["src/candy/Main.cc", "src/candy/utils/Runtime.cc"],
     [("signal handling and limits", "src/candy/Main.cc")], "process-level monitor with injected signals and limits", "sampled moments; termination is observed with a generous wall-clock bound", observe=["standard output", "exit code"])
prop("C21", "The clause database stays equivalent to the input formula",
     "Throughout a history of solve calls, including preprocessing, inprocessing, learning and database reduction, every clause in the solver's clause database is implied by the clauses added so far. Every added clause without eliminated variables stays implied by the irredundant (never deletable) clauses and the fixed literals.",
     ["inputs", "histories", "configurations"], "all formulas, incremental histories and solver configurations; every restart and the end of every solve call",
     "tests only look at verdicts; a lost or invented clause changes a verdict only if later search happens to depend on it",
     [S + "clauses/ClauseDatabase.h", S + "Solver.h", "src/candy/simplification/Subsumption.h", "src/candy/simplification/VariableElimination.h", "src/candy/systems/ReduceDB.h"],
     [("subsumption and strengthening", "src/candy/simplification/Subsumption.h"), ("elimination and restoration", "src/candy/simplification/VariableElimination.h"), ("database reduction", "src/candy/systems/ReduceDB.h")],
     "state monitor: the database is read from the termination callback and after every solve and compared with the input by an independent solver, ASan/UBSan share",
     "sampled clauses of every inspected database are decided by an independent solver with a conflict bound", observe=["getClauseDatabase()", "getAssignment()", "independent solver"])
prop("C22", "Concurrent solvers are free of data races and do not influence each other",
     "Solver instances used by different threads are independent: each answers correctly for its own clauses and assumptions, and no two threads access the same memory without synchronization. The same holds for the solver threads and the main thread of the command-line portfolio, whatever configuration they run and however the run ends.",
     ["schedules", "inputs", "configurations"], "all numbers of threads, interleavings, configurations and ends of a run (verdict, limit, signal)", "no test starts a second thread",
     ["src/candy/Main.cc", "src/candy/ipasir/ipasircandy.cc", S + "Solver.h", "src/candy/frontend/CandyBuilder.cc"],
     [("portfolio", "src/candy/Main.cc"), ("instance state", "src/candy/ipasir/ipasircandy.cc")],
     "ThreadSanitizer over concurrent IPASIR instances and over the portfolio executable, answers judged afterwards", "races on the executed paths and schedules only (happens-before detection)", observe=["ThreadSanitizer reports", "answers", "models"])
prop("C23", "Released objects give back all their memory and file descriptors",
     "When a solver instance, analysis, simulator, proof checker or formula object is released, all memory and file descriptors it acquired are given back, whatever was done with it. This includes reading malformed input that ends in a parser error, interrupted solves and written certificates; so creating and releasing instances repeatedly does not pile anything up.",
     ["histories", "inputs", "configurations"], "all histories of creating, using and releasing instances of the public classes and of the IPASIR interface, with all configurations, valid and malformed inputs",
     "the tests create each object once per process and never look at what stays allocated", 
     ["src/candy/ipasir/ipasircandy.cc", S + "Solver.h", S + "clauses/ClauseAllocator.h", "src/candy/mtl/Memory.h", "src/candy/gates/GateAnalyzer.cc", "src/candy/gates/GateProblem.h", "src/candy/minimizer/Minimizer.cc", "src/candy/rsar/ARSolver.cc", S + "CNFProblem.cc", S + "DRATChecker.cc", "src/candy/utils/StreamBuffer.h", "src/candy/randomsimulation/SimulationVector.cc"],
     [("clause memory", S + "clauses/ClauseAllocator.h"), ("instance release", "src/candy/ipasir/ipasircandy.cc"), ("gate structure", "src/candy/gates/GateProblem.h"), ("input files", S + "CNFProblem.cc")],
     "resource monitor: the heap in use (counted by the AddressSanitizer allocator) and the open descriptors are compared before and after repeated create-use-release histories", "exact for the executed histories; what the first of two equal histories keeps (caches, static tables) is not judged", observe=["heap in use", "open file descriptors"])
prop("C24", "Sequential runs are reproducible",
     "A sequential run is determined by its input and options: the same call history on another solver instance gives the same answers, models, failed assumptions, exported clauses and number of conflicts, and the same command line gives the same output and certificate, apart from reported times and memory. Where memory is placed, what the environment contains, what memory held before and which other instances exist or work in between make no difference.",
     ["inputs", "histories", "environments"], "all inputs, configurations and histories, and all environments and memory layouts they are run in",
     "the tests run every input once in one environment and never compare two runs",
     [S + "Solver.h", "src/candy/ipasir/ipasircandy.cc", "src/candy/Main.cc", "src/candy/simplification/Subsumption.h", "src/candy/simplification/VariableElimination.h", "src/candy/systems/ReduceDB.h", "src/candy/systems/branching/VSIDS.h", "src/candy/systems/branching/LRB.h", "src/candy/systems/Restart.h"],
     [("order of simplification", "src/candy/simplification/Subsumption.h"), ("clause deletion order", "src/candy/systems/ReduceDB.h"), ("decision order", "src/candy/systems/branching/VSIDS.h"), ("state per instance", S + "Solver.h")],
     "differential monitor: the recorded observations (answers, models, exported clauses, polls, conflicts, output lines, certificate bytes) of repeated runs with varied heap, environment and neighbouring instances are compared", "exact for the executed pairs of runs; a deviation that needs another memory layout than the ones produced is not seen", observe=["answers", "models", "exported clauses", "conflict counts", "output lines", "certificates"])
prop("C25", "Printed problem, gate and search statistics are exact",
     "The numbers printed about the input and its recognized gate structure (variables, clauses, remaining clauses, gates, monotonic gates, roots, recognition methods, conflict histograms) are those of the formula and of the structure that the configured recognition finds. They are printed exactly when the options ask for them, the search counters of a solve are printed once and in range, and runs that only ask for gate statistics or exceed the variable limit end with exit code 0 and without an answer.",
     ["inputs", "configurations"], "all formulas, input channels, recognition methods, numbers of tries, verbosity levels and variable limits",
     "no test looks at what the executable prints or at the counters of the gate analysis",
     ["src/candy/Main.cc", "src/candy/gates/GateProblem.h", "src/candy/gates/GateAnalyzer.cc", S + "CNFProblem.h", S + "Solver.h"],
     [("gate counters", "src/candy/gates/GateProblem.h"), ("printing", "src/candy/Main.cc")],
     "output monitor: every printed number is compared with an independent count over the input text and over the recognized structure (itself judged by C15)", "conflict histograms are checked by their sums only", observe=["stdout of the executable", "exit code"])
prop("C26", "Branching decides open variables; implicit learning keeps to its limits",
     "Under every branching heuristic each decision is an unassigned variable of the problem that is eligible for decisions, and the heuristic gives up only when no such variable is left. Implicit learning contradicts exactly the conjectured equivalences and constants of the literals of the last decision level, while the advice size, the budget per implication and the half-life permit it, and leaves every other decision to the default heuristic. It is active exactly when the gate structure and the simulation of the current problem provide conjectures, and clearing the solver discards them.",
     ["inputs", "configurations", "histories"], "all heuristics (VSIDS, LRB, implicit learning with advice size 2 and 3, budgeted, vanishing), conjectures, trails with conflicts and backjumps, eligibility changes, incremental calls and clears",
     "the tests look at a few hand-written trails and conjectures, never at the decisions of a search",
     ["src/candy/systems/branching/VSIDS.h", "src/candy/systems/branching/LRB.h", "src/candy/systems/branching/rsil/BranchingHeuristics.h", "src/candy/systems/branching/rsil/ImplicitLearningAdvice.h", S + "Solver.h"],
     [("advice", "src/candy/systems/branching/rsil/BranchingHeuristics.h"), ("advice table", "src/candy/systems/branching/rsil/ImplicitLearningAdvice.h"), ("open variables", "src/candy/systems/branching/VSIDS.h"), ("open variables", "src/candy/systems/branching/LRB.h")],
     "online monitor around every decision: an independent set of conjectures and of all budget states that explain the decisions so far is kept beside the heuristic", "the order of decisions that no conjecture concerns is free; the vanishing probability is judged statistically", observe=["every decision", "the trail", "the conjectures"])
prop("C27", "Priority queue, average, marks and paged memory match their abstract content",
     "After every sequence of operations the priority queue holds exactly the elements inserted and not removed and removes one of highest priority, the moving average is that of the last values within its window, and a mark is set exactly if it was set since the last clearing, however often marks are cleared. Paged memory keeps every object intact, aligned and visited exactly once in the order of allocation, and sorting it keeps exactly the objects in order, over any number of pages.",
     ["histories"], "all sequences of operations, priorities, window sizes, counter widths and object sizes",
     "no test exercises these containers", ["src/candy/mtl/Heap.h", "src/candy/mtl/BoundedQueue.h", "src/candy/mtl/Stamp.h", "src/candy/mtl/Memory.h"],
     [("priority queue", "src/candy/mtl/Heap.h"), ("moving average", "src/candy/mtl/BoundedQueue.h"), ("marks", "src/candy/mtl/Stamp.h"), ("paged memory", "src/candy/mtl/Memory.h")],
     "online monitor: a plain model (set, list) of the content is compared with everything observable after each operation, under checked containers and sanitizers", "exact for the executed sequences", observe=["every element, mark, sum and object after each operation"])
exec(open(os.path.join(V, "tools", "more_properties.py")).read()) if os.path.exists(os.path.join(V, "tools", "more_properties.py")) else None

NA = []
def main():
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            for fl in p["anchors"]["files"]:
                if not os.path.exists(os.path.join("/repo", fl)): print("no such file", p["id"], fl)
            for m in p["anchors"]["mechanism"]:
                if not os.path.exists(os.path.join("/repo", m["where"])): print("no such place", p["id"], m["where"])
            f.write(json.dumps({k: v for k, v in p.items() if k not in ("tech", "note")}) + "\n")
    m = dict(version=1, setup_cmd="python3 check.py --build", checks=[dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"], thorough_cmd="python3 check.py %s thorough" % p["id"],
             technique="runtime monitoring: " + p["tech"], level="exploration", level_note=p["note"]) for p in P], not_applicable=NA)
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
main()
