"""Which campaigns decide which property (quick and thorough case counts)."""
from runner import Campaign as C

COMMON = ["only the sampled inputs, configurations, histories and timings were observed: nothing is claimed beyond the executed cases",
          "the harness' reference solver is trusted only where its answer cannot be checked directly: a SAT answer is verified by evaluating the model"]
CANDY = ["candy"]
AIG = ["cnf2aig"]

SPECS = {
    "C01": dict(campaigns=[C("drv_solver", "verdict", "opt", 8000, 120000), C("drv_solver", "database", "opt", 4000, 60000), C("drv_solver", "deep", "opt", 16, 600, timeout=300), C("drv_solver", "verdict", "asan", 500, 8000)],
                rule="a random formula with more than two clauses, solved once under a random configuration; distinct by (configuration, formula)", assumptions=COMMON),
    "C02": dict(campaigns=[C("drv_solver", "model", "opt", 9000, 120000), C("drv_solver", "model", "asan", 600, 8000)],
                rule="a satisfiable formula with more than two clauses whose model was evaluated; distinct by (configuration, formula)", assumptions=COMMON),
    "C03": dict(campaigns=[C("drv_solver", "proof", "opt", 7000, 80000), C("drv_solver", "proof", "asan", 400, 5000)],
                rule="an unsatisfiable formula with more than two clauses whose certificate was checked lemma by lemma; distinct by (configuration, formula)", assumptions=COMMON),
    "C04": dict(campaigns=[C("drv_drat", "steps", "opt", 30000, 600000), C("drv_drat", "own", "opt", 5000, 60000), C("drv_drat", "garbage", "opt", 3000, 60000),
                           C("drv_drat", "steps", "asan", 1500, 30000), C("drv_drat", "own", "asan", 300, 5000), C("drv_drat", "garbage", "asan", 800, 20000)],
                rule="a (formula, proof) pair with at least one lemma or deletion on which the naive checker decides; distinct by the pair",
                assumptions=COMMON + ["proofs that are only valid with a RAT pivot other than the first literal are left open"]),
    "C05": dict(campaigns=[C("drv_solver", "incremental", "opt", 7000, 100000), C("drv_solver", "reuse", "opt", 4000, 60000), C("drv_solver", "database", "opt", 3000, 50000),
                           C("drv_solver", "incremental", "asan", 500, 8000), C("drv_solver", "reuse", "asan", 300, 5000)],
                rule="a history with at least two solve calls; distinct by (configuration, history)", assumptions=COMMON),
    "C06": dict(campaigns=[C("drv_ipasir", "calls", "opt", 12000, 200000), C("drv_ipasir", "big", "opt", 1000, 15000), C("drv_ipasir", "calls", "asan", 1000, 15000)],
                rule="a call history with at least two solve calls; distinct by history", assumptions=COMMON),
    "C07": dict(campaigns=[C("drv_solver", "interrupt", "opt", 4000, 60000), C("drv_solver", "interrupt", "asan", 300, 4000)],
                rule="a history in which at least one solve call was interrupted by the callback; distinct by (configuration, history)", assumptions=COMMON),
    "C08": dict(campaigns=[C("drv_solver", "learnt", "opt", 4000, 50000), C("drv_ipasir", "exports", "opt", 3000, 100000), C("drv_solver", "deep", "opt", 12, 400, timeout=300), C("drv_solver", "learnt", "asan", 300, 4000)],
                rule="a history in which at least one clause was exported; distinct by (configuration, history)", assumptions=COMMON),
    "C09": dict(campaigns=[C("drv_parse", "fidelity", "opt", 20000, 300000), C("drv_parse", "fidelity-big", "opt", 160, 2400), C("drv_parse", "fidelity", "asan", 2000, 30000)],
                rule="an input text with more than one clause whose clauses were compared; distinct by text", assumptions=COMMON),
    "C10": dict(campaigns=[C("drv_parse", "damage", "opt", 30000, 400000), C("drv_parse", "damage-big", "opt", 160, 2400), C("drv_parse", "damage", "asan", 4000, 60000)],
                rule="a damaged input; distinct by its bytes", assumptions=COMMON + ["damage is judged only where the written formula is known; free-form bytes only have to terminate in acceptance or a parser error"]),
    "C11": dict(campaigns=[C("drv_cli", "answers", "opt", 12000, 150000, tools=CANDY), C("drv_cli", "answers", "asan", 500, 8000, tools=CANDY)],
                rule="one invocation of the command-line solver on a well-formed input; distinct by (options, channel, formula)", assumptions=COMMON),
    "C12": dict(campaigns=[C("drv_cli", "portfolio", "opt", 480, 8000, timeout=130, tools=CANDY)],
                rule="an invocation in which more than one thread started solving; distinct by (options, formula)",
                assumptions=COMMON + ["interleavings are varied by delays, thread counts and core pinning, not enumerated"]),
    "C13": dict(campaigns=[C("drv_solver", "giant", "opt", 2, 40, timeout=120), C("drv_solver", "giant", "asan", 1, 20, timeout=240), C("drv_solver", "database", "asan", 150, 5000), C("drv_solver", "verdict", "asan", 500, 12000), C("drv_solver", "proof", "asan", 200, 5000), C("drv_solver", "incremental", "asan", 400, 10000), C("drv_solver", "reuse", "asan", 150, 5000),
                           C("drv_solver", "interrupt", "asan", 150, 5000), C("drv_solver", "learnt", "asan", 150, 5000), C("drv_drat", "steps", "asan", 400, 10000), C("drv_drat", "garbage", "asan", 400, 10000), C("drv_ipasir", "calls", "asan", 500, 10000),
                           C("drv_ipasir", "big", "asan", 40, 1000), C("drv_parse", "fidelity", "asan", 800, 20000), C("drv_parse", "damage", "asan", 2000, 40000), C("drv_parse", "damage-big", "asan", 24, 400), C("drv_gates", "gates", "asan", 1500, 30000),
                           C("drv_gates", "aig", "asan", 500, 10000, tools=AIG), C("drv_gates", "minimize", "asan", 500, 10000), C("drv_rs", "conjectures", "asan", 500, 10000), C("drv_rs", "rsar", "asan", 200, 5000), C("drv_cli", "answers", "asan", 200, 5000, tools=CANDY), C("drv_cli", "options", "asan", 300, 5000, tools=CANDY)],
                rule="one case executed to the end with address and undefined-behaviour instrumentation; distinct by input and configuration", assumptions=COMMON + ["misaligned clause storage of the original design is not instrumented (alignment, object-size, null and vptr checks are off)"]),
    "C14": dict(campaigns=[C("drv_gates", "minimize", "opt", 20000, 300000), C("drv_gates", "minimize", "asan", 800, 15000)],
                rule="a model from which at least one literal was dropped; distinct by (configuration, flags, formula)", assumptions=COMMON),
    "C15": dict(campaigns=[C("drv_gates", "gates", "opt", 60000, 800000), C("drv_gates", "gates", "asan", 2000, 30000)],
                rule="a formula in which at least one gate was recognized; distinct by (method, tries, formula)", assumptions=COMMON),
    "C16": dict(campaigns=[C("drv_gates", "aig", "opt", 40000, 400000, tools=AIG), C("drv_gates", "aig", "asan", 1000, 15000, tools=AIG)],
                rule="a generated circuit with more than one and-gate that was evaluated; distinct by (method, formula)", assumptions=COMMON + ["formulas without any clause are only converted by the command-line tool"]),
    "C17": dict(campaigns=[C("drv_rs", "conjectures", "opt", 40000, 600000), C("drv_rs", "conjectures", "asan", 2000, 30000), C("drv_rs", "partition", "opt", 60000, 1500000), C("drv_rs", "partition", "asan", 2000, 40000)],
                rule="a formula with at least two simulated gates whose conjectures were compared with the true classes; distinct by (settings, formula)", assumptions=COMMON + ["circuits with more than six inputs are compared on 4096 sampled inputs, so that only clear deviations count"]),
    "C18": dict(campaigns=[C("drv_rs", "refine", "opt", 60000, 1000000), C("drv_rs", "idc", "opt", 30000, 400000), C("drv_rs", "rsar", "opt", 8000, 100000),
                           C("drv_rs", "refine", "asan", 3000, 40000), C("drv_rs", "idc", "asan", 1000, 20000), C("drv_rs", "rsar", "asan", 500, 8000)],
                rule="a refinement history with clauses and removals, or a solve with conjectures; distinct by conjectures, removals and formula", assumptions=COMMON),
    "C19": dict(campaigns=[C("drv_cli", "options", "opt", 10000, 120000, tools=CANDY), C("drv_cli", "options", "asan", 500, 8000, tools=CANDY), C("drv_effect", "effects", "opt", 8000, 400000), C("drv_effect", "effects", "asan", 500, 20000)],
                rule="a command line whose options were either read back or refused; distinct by command line", assumptions=COMMON),
    "C20": dict(campaigns=[C("drv_cli", "simlimit", "opt", 60, 1500, timeout=150, tools=CANDY), C("drv_cli", "limits", "opt", 200, 4000, timeout=150, tools=CANDY)],
                rule="a run that ended without verdict because of a limit or signal; distinct by (options, timing, formula)", assumptions=COMMON + ["the ends of runs are observed in wall-clock time with a generous bound"]),
    "C21": dict(campaigns=[C("drv_solver", "database", "opt", 8000, 120000), C("drv_solver", "deep", "opt", 12, 400, timeout=300), C("drv_solver", "database", "asan", 300, 6000)],
                rule="a history of solve calls whose clause database was inspected; distinct by (configuration, history)", assumptions=COMMON + ["the database is inspected between restarts and after solve calls; input clauses over eliminated variables are not judged"]),
    "C22": dict(campaigns=[C("drv_cli", "races", "tsan", 96, 3000, timeout=280, tools=CANDY), C("drv_ipasir", "threads", "tsan", 1500, 40000)],
                rule="a run in which at least two threads solved concurrently; distinct by (configuration, formulas)", assumptions=COMMON + ["ThreadSanitizer reports races on the executed paths, independent of whether the schedule made them harmful"]),
    "C23": dict(campaigns=[C("drv_ipasir", "release", "asan", 1200, 40000), C("drv_gates", "release", "asan", 1200, 40000), C("drv_rs", "release", "asan", 400, 20000), C("drv_parse", "release", "asan", 2000, 60000), C("drv_drat", "release", "asan", 1000, 40000)],
                rule="an object created, used and released twice with the heap and the descriptors compared; distinct by configuration and input", assumptions=COMMON + ["memory that the first of two equal histories keeps (caches, static tables) is not judged"]),
    "C24": dict(campaigns=[C("drv_ipasir", "repeat", "opt", 6000, 150000), C("drv_cli", "repeat", "opt", 300, 8000, timeout=120, tools=CANDY)],
                rule="a call history or command line that was executed again and compared; distinct by configuration and input", assumptions=COMMON + ["reported times, memory, thread ids and the timing lines of the centrality computation are left out of the comparison; sampled centrality is compared between processes only"]),
    "C25": dict(campaigns=[C("drv_cli", "stats", "opt", 12000, 300000, tools=CANDY), C("drv_cli", "stats", "asan", 500, 10000, tools=CANDY)],
                rule="a run whose printed numbers were compared with independent counts; distinct by (options, formula)", assumptions=COMMON + ["the recognized structure is recomputed with the library's own recognition, whose correctness is C15"]),
    "C26": dict(campaigns=[C("drv_branch", "advice", "opt", 20000, 1000000), C("drv_branch", "search", "opt", 6000, 300000), C("drv_branch", "advice", "asan", 1200, 40000), C("drv_branch", "search", "asan", 500, 15000)],
                rule="a run in which the conjectures directed at least one decision, or (other heuristics) with several decisions; distinct by configuration, conjectures and decisions", assumptions=COMMON + ["the conjectures that guide a search are taken from the heuristic; which conjectures the simulation finds is judged by C16", "the vanishing probability is judged by the share of followed advice in 60 or more decisions"]),
    "C27": dict(campaigns=[C("drv_mtl", "containers", "opt", 16000, 800000), C("drv_mtl", "containers", "asan", 1600, 60000)],
                rule="a sequence of operations on one container whose whole content was compared after every operation; distinct by the sequence", assumptions=COMMON + ["sums of the moving average below 2^32", "operations of the containers that nothing in the system uses (popping from the average, its exponential form) are not judged"]),
}
