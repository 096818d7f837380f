"""Writes MANIFEST.json and dst/budget.json from one table."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NUMPY = "numpy arithmetic (real)"
LPCODE = "pytimize.programs (LinearProgram, IntegerProgram), parsers._description, utilities.Comparator"
GRAPHCODE = "pytimize.graphs (UndirectedGraph, DirectedGraph)"
FORMCODE = "pytimize.formulations.linear"
T = {}


def prop(pid, quick, thorough, rule, real, stub, assumptions, technique, note):
    T[pid] = dict(quick=quick, thorough=thorough, rule=rule, real=real, stub=stub, assumptions=assumptions,
                  technique=technique, note=note)


SIM = "deterministic simulation, seeded search: "
NOPROOF = "Seeded exploration, not proof: it finds a breakage that some generated run reaches. "
SCHED = "threads switch only at line or bytecode boundaries of the code under test; code inside numpy is atomic"

prop("C01", 3000, 40000,
     "A run = a generated program, 1-4 operations not in place, each with one seeded fault (interrupt or asynchronous exception at a chosen line or bytecode event, a failing linear-algebra call, a failing allocation, or none), then a retry and another query. Non-trivial: at least one fault fired; distinct by plan.",
     [LPCODE, NUMPY], ["numpy.linalg and numpy allocation functions behind a pass-through seam that can fail on command", "KeyboardInterrupt/async exceptions raised by the simulator"],
     ["interrupts arrive at line or bytecode boundaries of pytimize code, not inside numpy", "exact comparison of program data; answers compared to about 8 digits"],
     SIM + "interrupts, back-end and allocation failures injected at every event of a query",
     NOPROOF + "State and arguments are compared exactly before and after; answers against an undisturbed run of the same code on an equal program.")
prop("C02", 2500, 40000,
     "A run = one shared program, 2-4 clients with 1-2 queries each on real threads, parked and released by a seeded schedule of (events to run, next client), some clients interrupted. Non-trivial: at least one switch inside an operation; distinct by plan.",
     [LPCODE, NUMPY, "Python threads (one runnable at a time)"], ["thread scheduler"],
     [SCHED, "the reference is the same query run alone on an equal program"],
     SIM + "every interleaving decided by a seeded scheduler at line/bytecode granularity",
     NOPROOF + "Outcome of each concurrent call compared to the call run alone; program and arguments compared exactly.")
prop("C03", 16000, 120000,
     "A run = a derivation tree grown from caller arrays by seeded derivations, in-place edits and writes to caller or exposed arrays, every other program compared after each step; then owners edit their own programs on scheduled threads and are compared with a world in which each worked alone. Non-trivial: an edit or write succeeded next to a related program, or threads switched.",
     [LPCODE, NUMPY, "Python threads (one runnable at a time)"], ["thread scheduler"],
     [SCHED], SIM + "seeded edit histories and thread interleavings over derivation trees",
     NOPROOF + "Exact comparison of every program that was not edited.")
prop("C04", 4000, 60000,
     "A run = a history of 3-16 in-place edits, valid and invalid, some with a failing inverse or determinant, followed step by step by an exact rational model. Non-trivial: an edit was rejected or failed; distinct by plan.",
     [LPCODE, NUMPY], ["numpy.linalg behind a seam that fails on command"],
     ["small integer or half-integer data, histories stop when numbers get large", "numbers compared to 1e-7 relative", "allocation failures during in-place edits are not claimed"],
     SIM + "edit histories with rejected arguments and injected matrix failures against an exact reference model",
     NOPROOF + "Refinement of an independent rational model of each documented edit.")

prop("C05", 4000, 60000,
     "A run = a generated program (mixed relations, signs, senses; independent equality rows), solved and two-phase-solved under several back ends: exact, seeded last-digit perturbation of every inverse/determinant/solve result, a failing call. Each outcome is judged by an exact rational simplex. Non-trivial: a perturbation or failure was delivered; distinct by plan.",
     [LPCODE, NUMPY], ["numpy.linalg behind a seam that perturbs results by seeded relative noise of about 1e-15..1e-12 or fails on command"],
     ["small well-scaled data, linearly independent equality rows, as the property says", "perturbations stay within what a backward stable back end delivers", "numbers compared with tolerances far above the noise"],
     SIM + "seeded rounding noise and failures of the numerical back end, judged by an exact rational solver",
     NOPROOF + "Oracle: exact rational two-phase simplex and exact certificate checking.")
prop("C06", 1000, 30000,
     "A run = a generated bounded integer program, branch and bound under exact, perturbed and failing back ends, compared with brute-force enumeration of the box. Non-trivial: a perturbation or failure was delivered; distinct by plan.",
     [LPCODE, NUMPY], ["numpy.linalg behind a seam that perturbs or fails"],
     ["1-3 variables with explicit bounds, so that enumeration is possible", "perturbations stay within what a backward stable back end delivers"],
     SIM + "seeded rounding noise and back-end failures through the whole branch-and-bound tree, judged by enumeration",
     NOPROOF + "Oracle: enumeration of all integer points of the box.")
prop("C07", 8000, 60000,
     "A run = a history of accepted and rejected edits, copies and reads over a family of undirected graphs with seeded vertex hash values, every view compared with a reference graph after each step; then owners of different graphs edit on scheduled threads. Non-trivial: an edit was rejected, a collection written to, or threads switched; distinct by plan.",
     [GRAPHCODE, "Python threads (one runnable at a time)"], ["thread scheduler", "vertex hash values (vertices are str subclasses with seeded hashes)"],
     [SCHED, "one thread edits one graph; edits interrupted part-way are not claimed"],
     SIM + "edit histories with rejections, seeded hash values and thread interleavings against a reference graph",
     NOPROOF + "Every public view compared with an independent table model.")
prop("C08", 8000, 60000,
     "A run = a history of accepted and rejected edits and reads on directed graphs with seeded node hash values and names of any length, every view compared with a reference digraph; owners interleaved by the scheduler. Non-trivial: an edit was rejected or threads switched; distinct by plan.",
     [GRAPHCODE, "Python threads (one runnable at a time)"], ["thread scheduler", "node hash values"],
     [SCHED, "one thread edits one graph; edits interrupted part-way are not claimed"],
     SIM + "edit histories with rejections, seeded hash values and interleaved owners against a reference digraph",
     NOPROOF + "Every public view compared with an independent table model.")
prop("C09", 3000, 50000,
     "A run = a generated network (opposite arcs, unreachable nodes, zero, huge and decimal capacities), both methods under several seeded hash assignments and arc orders, interrupted at seeded events and retried, then 2-3 threads computing flows on one digraph at once. Non-trivial: an interrupt fired, a hash assignment differed, or threads switched; distinct by plan.",
     [GRAPHCODE, NUMPY, "Python threads (one runnable at a time)"], ["thread scheduler", "node hash values", "interrupts raised by the simulator"],
     [SCHED, "step bound: a generous polynomial of the network size"],
     SIM + "seeded hash orders, interrupts and thread interleavings of flow computations, judged by a reference max-flow",
     NOPROOF + "Oracle: exact-rational augmenting-path max-flow and a validity check of the returned flow.")
prop("C10", 6000, 90000,
     "A run = a graph with seeded hash values and 2-6 walks over it, whose next() calls are interleaved by the plan on one thread or by the scheduler on several; walks are abandoned, ordering functions fail at a seeded call. Non-trivial: walks were in flight together, abandoned, or a callback failed; distinct by plan.",
     [GRAPHCODE, "Python threads (one runnable at a time)"], ["thread scheduler", "the caller's ordering function (fails on command)", "vertex hash values", "random sources behind a seeded seam"],
     [SCHED, "the graph is not edited during the walks"],
     SIM + "seeded interleavings of iterator steps across walks and threads, abandonment and failing callbacks",
     NOPROOF + "Order checked against the set of all legal breadth- and depth-first orders by a step-wise acceptor.")
prop("C11", 4000, 60000,
     "A run = random programs and random walks drawn while the simulator decides every value of every random source (extreme, flipping, mixed, fair streams) and which draw fails; each program is used by other operations. Non-trivial: a simulated stream was consumed; distinct by plan.",
     [LPCODE, GRAPHCODE, NUMPY], ["random, numpy.random (legacy and Generator), os.urandom, secrets behind a seeded stream that can fail"],
     ["every source named above is replaced; other entropy is not used by the code"],
     SIM + "every random value and every failing draw decided by the simulator",
     NOPROOF + "Validity is stated as predicates of the generated program; equal streams are run twice.")
prop("C12", 15000, 150000,
     "A run = a history of compositions over shared subexpressions, with unsupported operands that raise, followed by threads composing from the same subexpressions. Non-trivial: a subexpression was reused, an operand was rejected, or threads switched; distinct by plan.",
     [FORMCODE, "Python threads (one runnable at a time)"], ["thread scheduler", "interrupts raised by the simulator"],
     [SCHED, "coefficients are small dyadic numbers, so that the exact model and floats agree"],
     SIM + "composition histories and thread interleavings over shared subexpressions against an exact model",
     NOPROOF + "Every expression compared with its exact rational value after every step.")
prop("C13", 2500, 40000,
     "A run = a history of accepted and rejected where() declarations, compilations, printing and solving on formulated programs, compared with a reference translation; then threads query one formulated program. Non-trivial: a declaration was rejected, a step interrupted, or threads switched; distinct by plan.",
     [FORMCODE, LPCODE, NUMPY, "Python threads (one runnable at a time)"], ["thread scheduler"],
     [SCHED, "declarations name variables of the program"],
     SIM + "declaration histories with rejections and thread interleavings against a reference translation",
     NOPROOF + "Compiled program compared exactly with the reference after every step.")
prop("C14", 8000, 120000,
     "A run = a quadratic program and a start point; each callback invocation can fail, return NaN, write into its argument or be interrupted by seed; retried undisturbed; then threads minimise from one shared start. Non-trivial: a callback misbehaved or threads switched; distinct by plan.",
     ["pytimize.programs (UnconstrainedProgram)", NUMPY, "Python threads (one runnable at a time)"], ["the caller's function, gradient and Hessian (fail, NaN, or misbehave on command)", "thread scheduler"],
     [SCHED, "well-conditioned strictly convex or concave quadratics"],
     SIM + "failing, NaN-returning and interfering callbacks and thread interleavings",
     NOPROOF + "Results compared with an undisturbed run and with the exact optimum.")
prop("C15", 8000, 120000,
     "A run = a history of unions, finds and rejected calls over up to thousands of items, with unions and finds interrupted at seeded events, then threads finding at once. Non-trivial: an interrupt fired, a call was rejected, or threads switched; distinct by plan.",
     ["pytimize.utilities.DisjointSet", "Python threads (one runnable at a time)"], ["thread scheduler", "interrupts raised by the simulator"],
     [SCHED, "unions are not run concurrently with anything (the property does not claim it)"],
     SIM + "union/find histories with interrupts at every event and concurrent finds against a reference partition",
     NOPROOF + "Partition compared with an independent table after every step.")
prop("C16", 1200, 20000,
     "A run = a sequence of 1-4 documentation runs over one output folder in a scratch checkout, each undisturbed, with one failing file operation, or crashed at one (buffered writes torn or lost), the folder possibly holding debris. Non-trivial: a file operation failed or a crash happened; distinct by plan.",
     ["docs/generate.py (whole script)", "BeautifulSoup"], ["file system behind an audit hook and fault-injecting raw files over a scratch directory"],
     ["a crash keeps a seeded part of what was written and not closed; directory operations are durable when they return"],
     SIM + "crashes with torn and lost writes and failing file operations over sequences of runs",
     NOPROOF + "Folder compared with that of an undisturbed run in a clean checkout; everything outside compared before and after.")
prop("C17", 5000, 80000,
     "A run = a two-variable program, drawings on a simulated display one of whose calls fails, or cut short at a seeded event, or with failing linear algebra, then an undisturbed drawing; then threads drawing and solving the same program. Non-trivial: a fault fired or threads switched; distinct by plan.",
     [LPCODE, NUMPY, "Python threads (one runnable at a time)"], ["matplotlib (a recording display that fails on command)", "thread scheduler", "numpy.linalg seam"],
     [SCHED, "programs whose region is empty are only checked for state preservation"],
     SIM + "failing display calls, interrupts at every event and thread interleavings of drawing",
     NOPROOF + "Program compared exactly; drawn polygon checked against the constraints and an undisturbed drawing.")
prop("C18", 8000, 120000,
     "A run = a history of logging queries, in-place edits, clears and copies over a family of programs, cut short by interrupts, back-end and allocation failures; then 2-3 threads query one program. Non-trivial: a fault fired, several programs were related, or threads switched; distinct by plan.",
     [LPCODE, NUMPY, "Python threads (one runnable at a time)"], ["thread scheduler", "numpy.linalg and allocation seam", "interrupts raised by the simulator"],
     [SCHED, "numbers in log texts compared to about 8 digits"],
     SIM + "logging histories with interrupts and failures, and thread interleavings checked as merges of each client's own entries",
     NOPROOF + "Each call's entries compared with those of the same call on a fresh equal program; concurrent logs must be an interleaving of them.")

prop("C26", 3000, 60000,
     "A run = a generated graph or digraph with seeded hash values, 1-4 queries each with one seeded fault (interrupt or asynchronous exception at a chosen event, failing allocation, failing ordering function, or none), then a retry and another query, everything returned being spoiled by the caller; then 2-3 threads query the graph at once and pairs of queries run one inside the other. Non-trivial: a fault fired or threads switched; distinct by plan.",
     [GRAPHCODE, NUMPY, "Python threads (one runnable at a time)"], ["thread scheduler", "numpy allocation seam", "interrupts raised by the simulator", "vertex hash values", "the caller's ordering function"],
     [SCHED, "the graph is not edited during the queries", "what shortest_path and formulate_shortest_path answer is not judged, only that they leave the graph alone"],
     SIM + "interrupts, failures and thread interleavings inside graph queries",
     NOPROOF + "Every public view of the graph compared exactly before and after; answers against the same query alone on an equal graph.")

prop("C19", 3000, 40000,
     "A run = a generated program taken through 0-3 edits and derivations (some rejected or cut short), dualised once and twice, primal and dual solved under several back ends (exact, perturbed, failing), a dualisation with one injected fault, then 2-3 threads dualising and solving. Non-trivial: a perturbation or fault was delivered, the program had a history, or threads switched; distinct by plan.",
     [LPCODE, NUMPY, "Python threads (one runnable at a time)"], ["numpy.linalg behind a seam that perturbs or fails", "thread scheduler", "interrupts raised by the simulator"],
     [SCHED, "small well-scaled data; optimal values compared for programs with independent equality rows", "perturbations stay within what a backward stable back end delivers"],
     SIM + "edit histories, rounding noise, failures and interleavings around dualisation, judged by textbook rules and an exact solver",
     NOPROOF + "Dual compared exactly with an independent construction; optima against an exact rational simplex.")
prop("C20", 12000, 200000,
     "A run = a generated or planted program (with valid and nearly valid certificates and bases), taken through 0-3 edits, asked 2-6 questions under exact, perturbed and failing back ends, interrupted calls in between, then threads asking at once. Non-trivial: a perturbation or fault was delivered, the program had a history, or threads switched; distinct by plan.",
     [LPCODE, NUMPY, "Python threads (one runnable at a time)"], ["numpy.linalg behind a seam that perturbs or fails", "thread scheduler", "interrupts raised by the simulator"],
     [SCHED, "candidates are either exact or wrong by far more than the tolerance", "perturbations stay within what a backward stable back end delivers"],
     SIM + "histories, rounding noise, failures, interrupts and interleavings around each check, judged by exact arithmetic",
     NOPROOF + "Oracle: the defining property evaluated in rational arithmetic.")
ALLCODE = "pytimize (all public operations)"
ZOO = ["numpy.linalg and allocation seam", "random sources", "matplotlib (recording display)", "output stream", "the caller's functions", "thread scheduler", "interrupts raised by the simulator"]
prop("C27", 2500, 40000,
     "A run = 1-4 operations of any part of the library, each with one injected failure or interrupt at a seeded place, process settings read before and after; then 2-3 threads run operations at once, each reading its own settings between them, and pairs of operations run one inside the other. Non-trivial: a fault fired or threads switched; distinct by plan.",
     [ALLCODE, NUMPY, "Python threads (one runnable at a time)"], ZOO,
     [SCHED, "settings set up by a first import or first call are not counted", "what an operation asked to print or draw does to its own stream or display is not a setting"],
     SIM + "failures, interrupts and interleavings inside every operation, process settings compared around them",
     NOPROOF + "Settings are read directly and compared exactly.")
prop("C28", 3000, 60000,
     "A run = a family of 2-4 nearly equal programs or graphs (or library cases), 3-9 steps of queries, edits, derivations, disturbed calls, dropped and renewed members and concurrent questions; every answer compared with that of a new object of the same content in a forked process where nothing happened before. Non-trivial: at least one answer compared; distinct by plan.",
     [ALLCODE, NUMPY, "Python threads (one runnable at a time)"], ZOO,
     [SCHED, "content is what public properties show; insertion order is content", "which of several maximum flows is found is not compared"],
     SIM + "histories of queries, edits, faults and interleavings over near-twins, each answer compared with a pristine process",
     NOPROOF + "The oracle is the same code on a fresh object in a fresh process, so it judges dependence on history only.")
prop("C29", 6000, 90000,
     "A run = 2-5 operations of any part of the library, each with one injected failure (linear algebra, allocation, callback, random source, display, output, asynchronous exception) or interrupt at a seeded place. Non-trivial: a fault fired; distinct by plan.",
     [ALLCODE, NUMPY], ZOO,
     ["failures arise at calls to the named services and at line or bytecode boundaries", "MemoryError and LinAlgError raised by the simulator stand for those of numpy"],
     SIM + "one failure or interrupt injected inside each operation, outcome compared with the injected error and the undisturbed result",
     NOPROOF + "Passing means: the injected error (or one chained to it) came out, or the undisturbed result did.")

NA = {
    "C21": "pure functions of one string; no nondeterminism or fault to simulate",
    "C22": "pure function of the program data; no nondeterminism or fault to simulate",
    "C23": "pure functions of the graph; no schedule or fault changes what the encoding should be",
    "C24": "pure functions of numbers; no nondeterminism or fault to simulate",
    "C25": "pure function of one matrix; no nondeterminism or fault to simulate",
}

def main():
    checks, na = [], []
    ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    for i in ids:
        if i in T:
            t = T[i]
            checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                           "evidence_file": f"evidence/{i}.json", "technique": t["technique"], "level": "exploration", "level_note": t["note"]})
        else:
            na.append({"property": i, "reason": NA.get(i, "not built yet")})
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: the simulator reaches the code through sys.monitoring, numpy/matplotlib/file seams and Python-level inputs, so the shipped code is the code that runs. Repairs are the fix: commits in /repo, listed in known_findings.json."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    json.dump({k: {x: v[x] for x in ("quick", "thorough", "rule", "real", "stub", "assumptions")} for k, v in T.items()},
              open(os.path.join(HERE, "dst", "budget.json"), "w"), indent=1)


if __name__ == "__main__":
    main()
