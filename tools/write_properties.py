"""Writes /verif/properties.jsonl (the source of truth for wording)."""
import json, os
L = "pytimize/programs/_linear.py"
I = "pytimize/programs/_integer.py"
U = "pytimize/programs/_unconstrained.py"
UG = "pytimize/graphs/_undirected.py"
DG = "pytimize/graphs/_directed.py"
F = "pytimize/formulations/linear/"
P = []


def add(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism],
                               observe_at=observe, hook_needed=None)))


add("C01", "Solver and query calls never alter the program, even when cut short",
    "Any operation on a linear or integer program that was not asked to work in place (solving, simplex steps, branch and bound, conversions, duals, checks, evaluation, printing) leaves the program's objective, constraints, variable signs and every array or list the caller passed exactly as they were, whether it returns, raises, or is cut short at any instant by an interrupt, a failing numerical routine or a failing allocation. A call made afterwards gives the answer it would have given had the cut-short call never happened. Only the log of solution steps may grow.",
    ["crash_points", "fault_sequences", "inputs"],
    "every non-in-place operation, every program and argument form (lists, float and integer arrays), every point in the call at which an interrupt, a LinAlgError/FloatingPointError or a MemoryError can surface",
    "The tests check at most that A is unchanged after a successful call; none makes a call fail part-way, and the instants at which one can be cut short number in the thousands per call.",
    [L, I], [("copy-then-work on a private program", f"{L}: copy, to_sef, simplex, simplex_iteration, to_canonical_form"), ("relaxation built from the program's data", f"{I}: relax")],
    ["public properties A, b, c, z, objective, inequalities, free/negative/positive variables, is_sef", "arguments after the call"],
    [("_A,_b,_c,_z,_inequality_indices,_free_variables,_negative_variables,_is_sef", "the program's mathematical content", L)])

add("C02", "Concurrent queries on one shared program answer as if alone",
    "Several threads may call any mix of not-in-place operations on the same linear or integer program at the same time, sharing argument arrays too. Under every interleaving each call returns, or raises, exactly what it would have if it ran alone, and the program is unchanged when all have finished.",
    ["schedules"],
    "every interleaving (at bytecode granularity) of two to four queries by different threads on one shared program",
    "All tests are single-threaded; a temporary edit that is undone before the call returns is invisible to them.",
    [L, I], [("queries work on private copies, never on shared arrays", f"{L}: copy, simplex, two_phase_simplex, solve, auxiliary, dual")],
    ["return values and raised exceptions per call, compared with a solo run"],
    [("shared program", "one LinearProgram/IntegerProgram reachable from all threads", L)])

add("C03", "Programs derived from one another, and from caller arrays, are independent",
    "Programs obtained from one another by copying, dualising, relaxing, converting, or adding constraints or variables without in_place, and programs built from the same caller arrays or lists, share no state: editing one of them in place, or writing into the arrays the caller passed or into the coefficient arrays one of them exposes, never changes any of the others. This holds for any history of derivations and edits and when the owners edit from different threads in any interleaving.",
    ["histories", "schedules"],
    "every derivation tree and every history of in-place edits of its members and of the caller's own arrays, under every interleaving of the owners' threads",
    "test_copy compares a fresh copy once, without editing either side; the other derivations are never followed by an edit of the original or of the derived program.",
    [L, I, F + "_abstract.py"], [("deep copy and array conversion at construction", f"{L}: __init__, copy, dual, auxiliary, to_sef"), ("relaxation", f"{I}: relax")],
    ["public properties of every program in the family after every edit"],
    [("coefficient arrays and sign lists", "must be private to each program", L)])

add("C04", "In-place edits have their documented effect or none at all",
    "Any sequence of in-place edits of a program (adding constraints and variables, conversion to standard equality form, conversion to canonical form for a basis, one simplex step) takes it through exactly the states those edits document. An edit that raises, because its arguments are rejected or because a matrix routine it relies on reports failure, leaves the program exactly as it was and later edits behave as if it had never been tried; data that describe no program (wrong sizes, unknown relations or objective, contradictory or impossible sign declarations) are refused at construction too.",
    ["histories", "fault_sequences"],
    "every history of valid, invalid and failing in-place edits, with matrix-inverse and determinant failures at any call",
    "Tests apply one edit to a fresh program; no test looks at the program after a rejected or failed edit, and none chains edits.",
    [L], [("validate, compute, then commit", f"{L}: add_constraint, add_variable, to_sef, to_canonical_form, simplex_iteration")],
    ["public properties after every edit, compared with an exact rational reference model"],
    [("program content", "A,b,c,z, relations, variable signs, SEF flag", L)])

add("C05", "LP verdicts survive rounding noise and failing numerical back ends",
    "For a linear program with small, well-scaled data, linearly independent equality rows, and any mix of relations, objective sense, free and negative variables, solving yields a feasible point of optimal value exactly when one exists and no solution otherwise, and the certificate of the two-phase method, and of the simplex method from any feasible basis, proves its verdict, however many constraints meet in a point. The outcome is the same whatever last-digit rounding the linear-algebra back end delivers. If the back end fails during the call, the failure reaches the caller: it never turns into a missing, infeasible or suboptimal answer.",
    ["fault_sequences", "inputs"],
    "every sequence of admissible rounding perturbations of matrix inverses and determinants, every back-end failure at any call, over generated programs",
    "The tests run one BLAS with one rounding on about a dozen programs, and the back end never fails in them.",
    [L, "pytimize/utilities/_comparator.py"], [("tolerance comparisons", "pytimize/utilities/_comparator.py"), ("slack basis start, two phases, Bland's rule", f"{L}: solve, two_phase_simplex, simplex, simplex_iteration")],
    ["solve, optimal_value, two_phase_simplex results against an exact rational solver"])

add("C06", "Branch and bound's answer survives rounding noise and failing back ends",
    "For an integer program whose feasible region is bounded, branch and bound returns an integral feasible point of the best objective value if there is one and no solution otherwise, for either objective sense and any variable signs; where only some variables are declared integral, those are integral and the rest optimal with them. The outcome is the same whatever last-digit rounding the linear-algebra back end delivers; a back-end failure during the call reaches the caller and never turns into a missing, infeasible or suboptimal answer.",
    ["fault_sequences", "inputs"],
    "every sequence of admissible rounding perturbations and back-end failures during the whole branch-and-bound tree, over generated bounded integer programs",
    "There is one branch-and-bound test, with one maximisation program and no perturbation.",
    [I, L, "pytimize/utilities/_comparator.py"], [("integrality tolerance and branching", f"{I}: branch_and_bound")],
    ["branch_and_bound result against brute-force enumeration"])

add("C07", "Undirected graph edits and copies keep every view consistent",
    "After any history of edits to an undirected graph, including rejected ones, all its views (vertices, edges, adjacency, weights, membership, degree, cuts, connectivity, tree and cycle tests, connected parts, equality, printed form) describe the same graph: exactly the one the accepted edits built; a rejected edit changes nothing. Copies and the collections handed out by views are independent of the graph, also when their owners edit them from different threads in any interleaving, and results do not depend on vertex hash values or set iteration order.",
    ["histories", "schedules", "fault_sequences"],
    "every history of accepted and rejected edits, copies and reads by several owners, every interleaving of owners of different graphs, every assignment of vertex hash values",
    "Tests build one small graph and ask one question; no test removes an edge, edits a copy, or reads after a rejected edit.",
    [UG], [("three mutually redundant tables kept in step", f"{UG}: add_edge, add_vertex, remove_edge, set_*_weight, copy")],
    ["every public view after every edit, compared with a reference graph"],
    [("_graph/_edges/_vertices", "adjacency, edge weights, vertex weights", UG)])

add("C08", "Directed graph edits keep every view consistent",
    "After any history of edits to a directed graph, including rejected ones, all its views (nodes, arcs, membership, in- and out-cuts, in- and outdegree, connection counts, residual graphs and hence capacities) describe exactly the digraph the accepted edits built, for node names of any length. A rejected edit changes nothing, and results do not depend on node hash values or set iteration order.",
    ["histories", "fault_sequences"],
    "every history of accepted and rejected edits and reads by interleaved owners, every assignment of node hash values",
    "Directed graphs are only tested through four max-flow examples with single-letter nodes; edits, cuts, degrees and rejections are not tested at all.",
    [DG], [("three mutually redundant tables kept in step", f"{DG}: add_arc, add_node, remove_arc, set_*_weight"), ("cut filters", f"{DG}: cut, ncut")],
    ["every public view after every edit, compared with a reference digraph"],
    [("_graph/_arcs/_nodes", "adjacency, capacities, demands", DG)])

add("C09", "Maximum flow is right under any hash order, interleaving or interruption",
    "For any digraph with nonnegative capacities (opposite arcs, multi-letter names, unreachable nodes included) and distinct source and sink, both max-flow methods return a valid flow within capacities that conserves flow at inner nodes and whose value is the maximum, within a bounded number of steps. This does not depend on node hash values or arc insertion order, on other threads running flow computations on the same digraph at the same time, or on earlier computations that were interrupted; the digraph is never changed.",
    ["schedules", "crash_points", "inputs"],
    "every interleaving of concurrent flow computations on one digraph, every interruption point, every hash-value assignment and arc order, over generated networks",
    "Four fixed networks, single-threaded, with one iteration order and no opposite arcs; preflow-push picks nodes and arcs in iteration order, so order decides which states are reached.",
    [DG], [("residual bookkeeping", f"{DG}: _compute_residual, ford_fulkerson, preflow_push, _bfs_path")],
    ["returned value and flow against a reference max-flow and a validity check", "digraph views before and after"])

add("C10", "Graph walks in flight are independent, complete and restartable",
    "Each walk over an unmodified undirected graph yields exactly the vertices reachable from its start, each once, in breadth-first, depth-first (or for the random method: every vertex once, in some order) order as requested, however many other walks over the same graph are in flight, however their steps interleave across iterators and threads, and whichever are abandoned. If the caller's ordering function fails part-way that error reaches the consumer and neither the graph nor any other walk is affected.",
    ["schedules", "fault_sequences", "histories"],
    "every interleaving of next() calls on several iterators by several threads, every abandonment point, every failing call of the ordering function, every hash-value assignment",
    "Traversal has no direct test; no test consumes an iterator lazily or runs two at once.",
    [UG], [("lazy generator with private queue and visited set", f"{UG}: traverse, bfs, dfs")],
    ["sequence of yielded vertices per walk"])

add("C11", "Random programs and walks are valid for whatever the random source deals",
    "Whatever values the random sources deliver, extreme ones included, a generated random program has the requested shape and magnitude, legal relations, disjoint and valid variable-sign sets, and is usable by every other operation; a random walk visits every vertex exactly once. Equal streams of random values give equal results, whatever the names hash to, while different streams lead to different programs and visiting orders, and a random source that fails makes the call raise without affecting existing programs or graphs.",
    ["fault_sequences", "configurations"],
    "every stream of values the random sources can deliver and every failing draw, for all shapes and magnitudes",
    "Random generation is untested: a test would see one stream.",
    [L, UG], [("random generation", f"{L}: random"), ("rng traversal", f"{UG}: traverse")],
    ["public properties of the generated program, yielded vertices"])

add("C12", "Algebraic expressions are values: composing never alters the operands",
    "Combining variables, expressions and numbers with +, -, unary minus and multiplication by a number, or comparing them, yields the expression, constraint or objective that algebra dictates (constants included) and leaves every operand as it was; a variable once mentioned remains one of the expression even where its terms cancel. Hence subexpressions may be reused any number of times, in any order, also by several threads at once in any interleaving, with the same results; an unsupported operand never corrupts the other operand.",
    ["histories", "schedules"],
    "every sequence of compositions reusing shared subexpressions, every interleaving of threads composing from the same ones",
    "Tests build each expression once from fresh variables and never reuse one.",
    [F + "_equation.py", F + "_variable.py", F + "_objective.py"], [("operator overloads", F + "_equation.py"), ("variables", F + "_variable.py")],
    ["coefficients, terms and constant of expressions, constraints and objectives"],
    [("terms and constant", "content of a LinearEquation", F + "_equation.py")])

add("C13", "Formulated programs track their sign declarations through any history",
    "A formulated program always equals its objective and constraints with exactly the sign declarations accepted so far (undeclared variables are free), whatever the history of declarations, rejected declarations and queries in between. A rejected declaration (duplicate or contradictory) raises and changes nothing, also when a single call mixes acceptable and unacceptable declarations; equal histories give equal programs when several threads use one formulated program.",
    ["histories", "schedules"],
    "every history of accepted and rejected declarations interleaved with compilations, printing and solving, and every interleaving of threads querying one formulated program",
    "One integration test declares once and solves once.",
    [F + "_abstract.py", F + "_objective.py"], [("declaration lists and recompilation flag", F + "_abstract.py")],
    ["the compiled program's public properties against a reference translation"],
    [("declarations and cached program", "what has been declared and the compiled result", F + "_abstract.py")])

add("C14", "Descent methods tolerate failing callbacks and leave the start point alone",
    "Steepest descent and Newton's method never modify the starting point the caller passed nor any array the caller's functions hand out, whatever the caller's functions do, and finish within the iteration limit. An exception raised by any call of the caller's functions reaches the caller unchanged, and trying again from the same point gives exactly the result of an undisturbed run, also when several threads minimise from the same start at once. On strictly convex quadratics (concave when maximising) the returned point is the optimum within the tolerance.",
    ["fault_sequences", "schedules", "inputs"],
    "every failing or NaN-returning callback invocation, every interleaving of threads sharing a program and a start point, over generated quadratics for both objectives",
    "Two tests minimise one function once each, with callbacks that never fail, and never look at the start array again.",
    [U], [("iteration on a private iterate", f"{U}: steepest_descent, newton_method")],
    ["returned point, start array, exception identity"])

add("C15", "Disjoint sets stay the right partition through finds, unions and interrupts",
    "After any history of unions, finds and rejected calls, two items have the same representative exactly when unions connect them, and the representative is a member of its set; finds never change the partition, also when several threads find at once in any interleaving. A union interrupted at any instant has either happened or not, and large collections never exhaust the recursion limit.",
    ["histories", "schedules", "crash_points"],
    "every history of unions and finds, every interleaving of concurrent finds, every interruption point",
    "DisjointSet has no tests at all.",
    ["pytimize/utilities/_disjoint.py"], [("union by rank with path compression", "pytimize/utilities/_disjoint.py")],
    ["find results for all items against a reference partition"],
    [("parent and rank tables", "forest", "pytimize/utilities/_disjoint.py")])

add("C16", "Documentation generation is all-or-reported and recovers after a crash",
    "A documentation run that returns normally leaves exactly the complete set of pages, with complete contents and nothing left over, whatever an earlier crashed or failed run left in the output folder. A failing file operation (disk full, permission, I/O error, failed close) makes the run raise. No run, successful, failed or crashed, changes anything outside its output folder.",
    ["crash_points", "fault_sequences", "histories"],
    "every crash point (with torn and lost buffered writes) and every failing file operation in a sequence of runs over one output folder",
    "The generator has no tests; the baseline only checks that it parses.",
    ["docs/generate.py"], [("remove, recreate, write page by page", "docs/generate.py: generate")],
    ["contents of the output folder and of its surroundings after each run"],
    [("docs/pytimize/", "generated pages", "docs/generate.py")])

add("C17", "Drawing a feasible region leaves the program intact whatever fails",
    "Drawing a two-variable program's feasible region never changes the program, whether drawing succeeds, the region turns out empty, boundary lines have no intersection, the display back end fails at any of its calls, or the call is interrupted at any instant. A later drawing on a working display shows the same closed polygon that an undisturbed program would have shown, whose corners are exactly those of the region the constraint rows and the given limits describe, also when several threads draw or solve the same program at once.",
    ["fault_sequences", "crash_points", "schedules"],
    "every failing display call, every interruption point, every interleaving with other queries, over generated two-variable programs",
    "Drawing has no test; it needs a display, and display failures cannot be provoked from one.",
    [L], [("temporary boundary constraints", f"{L}: graph_polyhedron")],
    ["program properties; sequence of display calls with their data"])

add("C18", "The log of solution steps is append-only and complete",
    "A program's step log only grows, by whole entries, until its owner clears it: no operation, failing operation, interruption or concurrent query ever removes, reorders or rewrites earlier entries, and entries logged by concurrent queries on one program are all kept, each query's in its own order. With step recording off a query logs nothing for its own part, clearing (in place or on a copy) empties exactly the log of the program it returns, and copies' logs evolve independently.",
    ["histories", "schedules", "crash_points"],
    "every history of logging operations, clears and copies, every interleaving of concurrent logging queries, every interruption point",
    "One test checks that four keys appear after one call.",
    [L, "pytimize/parsers/_description.py"], [("append to the step list", f"{L}: __append_to_steps, clear_steps, copy")],
    ["steps and steps_string"],
    [("_steps", "log of rendered steps", L)])

add("C26", "Graph queries never alter the graph, and share it safely",
    "No query of an undirected or directed graph (membership, weights, cuts, degrees, searches, connectivity, cycle, tree and spanning-tree tests, partition, copies, comparison, stable-set formulation, residual networks, maximum flows) changes the graph or its own arguments, whether it succeeds, is rejected, is interrupted at any instant, or is stopped by a failing allocation or ordering function; what it returns belongs to the caller, who may alter it without touching the graph. Asked again afterwards it answers as on an untouched graph. Any number of threads, or a handler running in the middle of another query, may query one graph at once, each receiving the answer it would have got alone.",
    ["crash_points", "schedules", "fault_sequences"],
    "every query, every interruption point, every failing allocation, every interleaving of queries on one graph",
    "Tests call queries one at a time on their own graphs and never look at the graph afterwards.",
    [UG, DG], [("scratch state of traversals and flows", f"{UG}: traverse, is_connected, partition; {DG}: create_residual, preflow_push")],
    ["vertices, edges, arcs, adjacency, cuts; results of queries"],
    [("adjacency tables", "vertices and edges with weights; arcs with capacities", f"{UG}, {DG}")])

add("C19", "Duality holds along any history, under rounding noise and concurrent use",
    "For a program reached by any history of edits, conversions and derivations, rejected and cut-short calls included, the dual has the textbook form and the dual of the dual is the program again (the objective constant aside). Weak duality holds between any feasible points and the optimal values coincide when either is finite, whatever last-digit rounding the linear-algebra back end delivers. The dual is the same when several threads dualise and solve the program at once, and a call cut short by a failure never yields a wrong dual later.",
    ["histories", "fault_sequences", "schedules", "inputs"],
    "every history of edits and derivations before dualising, every rounding perturbation and failure of the back end, every interleaving of threads dualising one program",
    "No test calls dual() at all.", [L], [("dual construction from relations and sign lists", f"{L}: dual")],
    ["public properties of dual() and dual().dual(), optimal values of both, against the textbook rules and an exact solver"],
    [("relations and sign lists", "decide the form of the dual; kept by every edit", L)])
add("C20", "Checks of points, bases and certificates tell the truth, whatever happens",
    "Asked of a program with any history, the checks of feasibility, bases, basic solutions, canonical form and the certificates of optimality, unboundedness and infeasibility say yes exactly when the defining property holds, and the basic solution computed for a basis is that basis's; last-digit rounding of the data's arithmetic or of the back end never decides. Requests with no answer (wrong sizes, indices out of range, not a basis) are refused. A back end that fails during a check is reported and never becomes a verdict, and the verdicts are the same after failed or interrupted calls and under any interleaving of threads asking.",
    ["histories", "fault_sequences", "schedules", "crash_points"],
    "every history of edits before the question, all candidate points, bases and certificates near and far from valid ones, every rounding perturbation, failure and interruption of a check, every interleaving of threads asking one program",
    "A handful of exact examples per check on fresh programs; several checks are not tested at all, and no back end fails or rounds differently in them.",
    [L, "pytimize/utilities/_comparator.py"], [("verification predicates with tolerance", f"{L}: verify_*, is_feasible, is_basis, is_basic_solution, is_feasible_basic_solution, is_canonical_form_for, compute_basic_solution")],
    ["results of the checks against exact rational arithmetic"],
    [("program content", "A,b,c,z, relations, variable signs, SEF flag", L)])
# ---- pure functions of their input: not simulation targets
add("C21", "Parsers invert formatting and reject everything else",
    "The graph and linear expression parsers return exactly the terms written in any well-formed expression and reject every malformed one.",
    ["inputs"], "all strings", "A few example strings.", ["pytimize/parsers/_graph.py", "pytimize/parsers/_linear.py"], [("regular expressions", "pytimize/parsers/_graph.py, _linear.py")], ["parse results"])
add("C22", "The printed form shows the program faithfully",
    "The printed form of a program shows every coefficient (to its stated precision), relation and sign condition, aligned, for all magnitudes.",
    ["inputs"], "all programs", "Fixed examples.", [L], [("formatting", f"{L}: __repr__, _format_number")], ["repr()"])
add("C23", "Graph problems are encoded by their mathematical programs",
    "The programs formulated for maximum stable set and shortest path have exactly the feasible points and objective of the combinatorial problem, and the direct shortest-path method returns a path of minimum weight.",
    ["inputs"], "all undirected graphs", "One stable-set example; the shortest-path test is skipped.", [UG], [("formulations", f"{UG}: formulate_max_stable_set, formulate_shortest_path, shortest_path")], ["formulated program, path"])
add("C24", "Numeric comparisons are consistent under tolerance",
    "The tolerance comparisons agree with exact comparison away from the tolerance, treat values within it as equal, and are mutually consistent for scalars and arrays.",
    ["inputs"], "all floating-point values", "A few sample values.", ["pytimize/utilities/_comparator.py"], [("tolerance tests", "pytimize/utilities/_comparator.py")], ["comparison results"])
add("C25", "Row reduction returns the reduced row echelon form",
    "Row reducing any matrix returns its unique reduced row echelon form and never alters the argument.",
    ["inputs"], "all matrices", "Untested.", [L], [("Gauss-Jordan elimination", f"{L}: to_rref")], ["to_rref()"])

add("C27", "Library calls leave process-wide settings as they found them",
    "No library call leaves a setting of its process other than it found it: numpy's error handling and print options, the random generators' seeding, recursion limit, signal handlers, warning filters, streams, working directory, environment, logging, locale, decimal context, garbage collector, threads, open files, plotting settings, figures the caller has open. This holds whether the call returns, raises, fails inside (linear algebra, memory, callback, random source, display) or is interrupted at any instant, under every interleaving of calls by several threads, and whatever settings the caller had chosen.",
    ["crash_points", "schedules", "fault_sequences"],
    "every public operation, every injected failure and interruption point, every interleaving of operations by threads and of one call inside another",
    "The tests never look at a process setting, and a setting restored on the normal way out is only lost on the way a fault takes.",
    [L, I, U, UG, DG, F + "_abstract.py", "pytimize/utilities/_disjoint.py"], [("calls into numpy, random, matplotlib without altering their settings", f"{L}, {UG}, {DG}, {U}")],
    ["process-wide settings read before and after each call, and by each thread between its steps"])
add("C28", "Answers depend on present content alone, never on history",
    "A program, graph or formulated model answers every query exactly as one newly built from its public content in a process where nothing has happened before: nothing survives from earlier answers, edits, rejected, failed or interrupted calls, from its relatives, or from other objects of equal or nearly equal content, living or dropped. This holds also when other threads ask or derive at the same time.",
    ["histories", "crash_points", "schedules"],
    "every history of queries, edits, derivations, failures and interrupts over families of nearly equal objects, every interleaving of threads asking",
    "Each test asks a freshly built object one question; a stale cached answer needs two questions with an edit or a near-twin between them.",
    [L, I, UG, DG, F + "_abstract.py", F + "_objective.py"], [("answers computed from content on each call", f"{L}, {I}, {UG}, {DG}"), ("recompilation after a declaration", F + "_abstract.py")],
    ["answers and log entries, compared with those of a new object of the same public content in a pristine forked process"],
    [("object content", "what the public properties show", f"{L}, {UG}, {DG}")])
add("C29", "A failure during any call reaches the caller and never becomes an answer",
    "When something a call relies on fails (linear algebra, memory allocation, the caller's function, the random source, the display, printing), the caller of that operation gets that very error, or one raised because of it, or else exactly the result of an undisturbed call. Interrupts always reach the caller.",
    ["fault_sequences", "crash_points"],
    "every public operation, every call it makes to a fallible service, every interruption point",
    "No test makes anything fail; a handler that turns one failure into a verdict is never executed by them.",
    [L, I, U, UG, DG, F + "_abstract.py"], [("no handler turns a failure into an answer", f"{L}: is_basis, verify_*, solve; {I}: branch_and_bound; {UG}, {DG}, {U}")],
    ["returned value or exception (with its causes) of each disturbed call"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
