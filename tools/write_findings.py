"""Writes known_findings.json: repaired defects only record what was repaired; they suppress nothing."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = """3021951 C01,C02 simplex edited the program it was called on (and so let concurrent queries see a half-pivoted program)
ccd0d31 C03 programs kept the caller's arrays, and duals kept the primal's
1574875 C04 add_constraint/add_variable with rejected arguments left the program half edited
59e472d C04 a simplex step or conversion whose matrix inverse failed left the program half edited
ad39046 C18 clear_steps() not in place recursed without end
311bd3a C05 solve started from an infeasible slack basis and turned every exception into the two-phase method's answer
0e19960 C18 solve and verify_unboundedness logged with show_steps off
2a8a4a5 C17 graph_polyhedron added its limits to the program's own relations and truncated coefficients to integers
9629cf2 C06 branch and bound lost variable signs and maximised whatever the objective
4e37560 C07 copies of an undirected graph shared adjacency sets with the original
d4d1849 C07 remove_edge left the edge in the edge table
8f0b860 C07,C08,C09 cuts split a multi-letter node name into letters
f454272 C07 is_cyclic took an edge for a cycle
8ea0eab C07 partition returned wrong components
91ed113 C08 add_arc rejected one demand for one new node and changed the digraph before rejecting
b1ca4a6 C09 maximum flow failed on opposite arcs and on digraphs without inner nodes
1449c47 C12 composing expressions altered the operands and lost constants
6fe7f26 C12,C13 objectives rejected a bare variable and variables without constraints
86e8dca C13 a rejected where() declaration was applied in part
a80f7f6 C14 descent methods wrote into the start point and could not maximise
76805f7 C10 depth first traversal visited in another order
a26d7b9 C10,C11 random traversal yielded pairs instead of vertices
cab0e95 C05 the certificate of unboundedness followed rounding noise
a28d162 C09 preflow push failed on fractional capacities whose sums round
bda8564 C17 drawing failed with LinAlgError on parallel boundary lines that are not axis-aligned
b3b7b2e C17 drawing dropped corner points on boundary lines through the origin
eec2029 C20 is_feasible_basic_solution rejected every vector
bed62fd C20 is_canonical_form_for examined the rows instead of the columns of the basis
8fe3359 C20 is_canonical_form_for ignored the order of the basis
6247739 C20 is_feasible had no rounding tolerance for inequalities and signs
3a745af C20 basic solutions of an unsorted basis had components in the wrong places
88433e7 C14 steepest descent hung when the gradient is infinite and the step shrinks by less than half
c33593b C03 integer programs kept the caller's list of integral variables
50f3f71 C12 integer objectives rejected a bare variable
e3080c9 C04 add_constraint and add_variable accepted values and coefficients of any length, leaving A, b and c of sizes that do not fit
1090580 C05,C20 programs given arrays of single precision were computed with in single precision, which decided verdicts
5396604 C20 complex arrays were accepted and their imaginary parts dropped, so points that are not real passed for feasible
d91ca2d C20 matrices were accepted as certificates"""
out = []
for line in F.split("\n"):
    commit, props, what = line.split(" ", 2)
    for p in props.split(","):
        out.append({"status": "fixed", "property": p, "commit": commit, "what": what, "record": f"fixed: property={p} {commit} {what}"})
with open(os.path.join(HERE, "known_findings.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
