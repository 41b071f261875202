#!/usr/bin/env python3
"""Writes MANIFEST.json and contracts/meta.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VC = "contracts on the real code; verification conditions from /repo's AST per function, discharged by z3; failed obligations replayed on the real code"
MATH = "int and float are mathematical numbers (no rounding, overflow, NaN)"
T = {
    "C01": dict(level="proof", numpy=True, note="Every comparison of Comparator is proved for every number and every array of one or two dimensions, against the tolerant comparison it documents; the coherence of the comparisons with each other is a lemma. Trusted: generator, numpy model (isclose is |a-b| <= 1e-8 + 1e-5|b|), z3; floats are exact reals, no NaN or infinity."),
    "C02": dict(level="proof", note="find, union and the constructor are proved for every well-formed state, every item and every list of items. Trusted: the generator, its model of dict/set, z3; strings are an ordered sort; finite cardinality of the set of a list's entries."),
    "C03": dict(level="proof", note="Every operation, the defaults, the copies handed out, copy, == and construction are proved for every well-formed graph and every argument; sequences follow by induction since each operation assumes and re-establishes the invariant. repr is not covered (cosmetic). Trusted: generator, container model, z3."),
    "C04": dict(level="proof", note="As C03, for the directed graph: every operation with every kind of demand argument, construction from any mix of adjacency, arcs and nodes. Trusted: generator, container model, z3."),
    "C05": dict(level="proof", note="Cut, ncut and the degrees are proved for a name, a set of names or a list of names, over every well-formed (di)graph. Trusted: generator, container model, z3."),
    "C06": dict(level="proof", note="Traversal (all methods, any ordering key), bfs, dfs, connectivity, tree and cycle tests and partition are proved for every well-formed graph with ghost parents and ranks; reachability is a least fixed point given by closure and instances of minimality, that it is an equivalence and that a forest has no edge on a cycle are proved lemmas. Trusted: generator, container model, z3, finite cardinality, least-number principle. Order beyond the first element is not specified."),
    "C07": dict(level="proof", note="For every well-formed digraph with nonnegative weights and every two nodes: the flow returned is feasible, the value is the net outflow of the source, and a cut is exhibited whose leaving arcs are saturated and whose entering arcs are empty (that such a cut makes the flow maximum is proved in lean/Facts.lean, stated there by hand). The push and the path search are proved as functions of their own. Termination is not proved (partial correctness; the oracle runs it). Trusted: generator, container model, z3, finite sums (lean/Facts.lean)."),
    "C08": dict(level="proof", note="For every well-formed digraph with nonnegative weights and every two nodes: with invariants on the four loops (excess, valid heights, source at the number of nodes, consistent residual), the flow returned is feasible and conserving, the value is the net outflow of the source, and a cut is exhibited (nodes above an empty height) whose leaving arcs are saturated and whose entering arcs are empty. That such a cut makes the flow maximum, and that some height between is empty (pigeonhole), are proved in lean/Facts.lean, stated there by hand. Termination is not proved (partial correctness; the oracle runs it). Trusted: generator, container model, z3, finite sums (lean/Facts.lean)."),
    "C09": dict(level="proof", note="The residual computation and the residual digraph built from it are proved for every well-formed digraph and every arc flow that is not negative. Trusted: generator, container model, z3, the contract of the constructor (proved in C04)."),
    "C10": dict(level="proof", numpy=True, note="The constructor is proved for every matrix, vectors, constant, direction, list of relations and lists of free and negative variables (arrays of floats or integers, lists of numbers, wrong dimensions, junk): it accepts exactly the well-formed ones and keeps them as given; the conversion of arguments is proved for every array and every list of lists of anything; every getter is proved for every well-formed program. Trusted: generator, numpy model (np.array of a list of numbers or of equally long lists of numbers; a mixture raises), finite cardinality, z3; strings are an ordered sort; exact reals."),
    "C11": dict(level="proof", numpy=True, note="Every public operation of linear programs under contract (queries, conversions, algorithms) carries obligations that it leaves the program, its arrays and the caller's arguments as they were when not asked to work in place, also when it raises, and that what it returns shares no array, list or mapping with the program; copy, ==, clear_steps, relax, dual, auxiliary and the constructors (linear and integer) likewise; a copy is proved equal to its original and == to hold exactly for programs equal in every part. In-place and copying variants meet the same contracts. repr and cs_conditions are only covered by the bounded replay oracle. Trusted: generator, numpy model (which operations return views), z3."),
    "C12": dict(level="proof", numpy=True, note="add_constraint and add_variable, copying and in place, are proved for every well-formed program and every argument (arrays of floats or integers, lists, wrong sizes, matrices, unknown relations): the result has exactly the one row or column more, refusals change nothing, and the feasible points are related as stated. Trusted: generator, numpy model, linear-algebra laws (each proved in Lean, statement generated, for vectors of finite support), z3; exact reals."),
    "C13": dict(level="proof", numpy=True, note="to_sef (copying and in place) is proved, with invariants on its three loops, to return a program whose rows and objective are those of the original composed with the map that joins split variables, changes signs and drops slacks; that this map is what the property says position by position, and that feasible points correspond both ways with the objective kept, are lemmas proved by induction over that contract. Trusted: generator, numpy model, linear-algebra laws (each proved in Lean, statement generated, for vectors of finite support), z3; exact reals."),
    "C14": dict(level="proof", numpy=True, note="dual is proved to build exactly the dual data for every well-formed program; that the dual of the dual is the program and weak duality for all feasible pairs are lemmas over that contract. Trusted: generator, numpy model, linear-algebra laws (each proved in Lean, statement generated, for vectors of finite support), z3; exact reals."),
    "C15": dict(level="proof", numpy=True, note="is_basis, compute_basic_solution (and its private worker), is_basis_feasible, is_basic_solution and is_feasible_basic_solution are proved for every program with at least one row and every list or integer array of positions and every vector; tolerant answers are specified two-sided. Linear independence is the determinant, as the property says. Trusted: generator, numpy model, linear-algebra laws (each proved in Lean, statement generated, for vectors of finite support), z3; exact reals."),
    "C16": dict(level="proof", numpy=True, note="to_canonical_form (copying and in place) is proved to give the stated formulas for every program in standard equality form with at least one row and every basis, to refuse everything else without changing anything; that these formulas have the identity and zero objective on the basis, the same solutions and the same objective values are lemmas; is_canonical_form_for is proved two-sided. Trusted: generator, numpy model, linear-algebra laws (each proved in Lean, statement generated, for vectors of finite support), z3; exact reals."),
    "C17": dict(level="proof", numpy=True, note="One iteration and the whole run of simplex (copying and in place) are proved for every program in standard equality form with at least one row: from a feasible basis the iteration keeps feasibility, does not lower the objective, or ends with an optimal point or an unbounded ray; the answer of simplex carries the corresponding certificate. Termination is not proved (partial correctness), and a basis that becomes singular within tolerance may still raise ValueError. Tolerant answers are stated for margins. Trusted: generator, numpy model, linear-algebra laws (each proved in Lean, statement generated, for vectors of finite support), z3; exact reals."),
    "C18": dict(level="proof", numpy=True, note="auxiliary is proved to build the phase-one program, two_phase_simplex to start it from the feasible artificial basis, to hand on exactly the outcome of the second phase (whose certificates are proved under C17), and otherwise to return a vector y with yA nonnegative up to tolerance and yb negative. Every outcome therefore carries its certificate, so it is the true status. Not proved: termination, and that no exception is raised (numerically dependent columns; the search for a second-phase basis has a contract on types only); the replay oracle runs these. Trusted: generator, numpy model, linear-algebra laws (each proved in Lean, statement generated, for vectors of finite support), z3; exact reals."),
    "C19": dict(level="proof", numpy=True, note="solve is proved, over the contracts of to_sef, simplex and two_phase_simplex, to return exactly the point behind the optimal point of the standard form (loops that join split variables and change signs included), nothing only for outcomes unbounded or infeasible; that this point is feasible up to tolerance and not beaten is a lemma over those contracts (for certificates with exact margin); optimal_value is proved. Not proved: termination and absence of exceptions. Trusted: generator, numpy model, linear-algebra laws (each proved in Lean, statement generated, for vectors of finite support), number of relations = slack columns, z3; exact reals."),
    "C20": dict(level="proof", numpy=True, note="The three certificate checks are proved for every program in standard equality form and every vector argument, two-sided (exact certificates with margin are accepted, what misses a condition beyond tolerance is refused), and refuse programs not in that form; that accepted certificates certify (weak duality, Farkas) is a lemma over the contracts for exact margins. The calls use is_feasible by its contract (proved in C21). Trusted: generator, numpy model and linear-algebra laws (each proved in Lean, statement generated, for vectors of finite support), z3; exact reals."),
    "C21": dict(level="proof", numpy=True, note="is_feasible, evaluate and value_of are proved for every well-formed program and every vector argument (lists, integer and float arrays, wrong sizes, matrices): exactly feasible vectors are accepted, vectors beyond tolerance refused, values exact. Trusted: generator, numpy model, linear-algebra laws (each proved in Lean, statement generated, for vectors of finite support), z3; exact reals."),
    "C22": dict(level="proof", numpy=True, note="The recursion of branch and bound is proved over the contract of solve (C19, for certificates with exact margin and a bounded relaxation) and its own contract at the recursive calls: the vector returned is feasible up to tolerance, integral where it has to be, its value is the objective, no feasible vector that is integral where it has to be is better, and nothing is returned only when there is none; both branches are proved to be the program with one bound more and to miss no integral vector. branch_and_bound and relax likewise. Termination is not proved (partial correctness; the oracle runs it). Trusted: generator, numpy model, linear-algebra laws (each proved in Lean, statement generated, for vectors of finite support), z3; exact reals."),
    "C23": dict(level="proof", numpy=True, note="Both methods are proved, with invariants on the loop of iterations and on backtracking, for every number of variables, target, gradient and Hessian (any functions of the entries of a vector that do not change it), every start (array of floats or integers), tolerance, limit and positive alpha, c and p, for both objectives: every step goes against the gradient and passes the test of sufficient decrease, the result is no worse than the start, Newton steps solve the Hessian system, an end before the limit happens only within the tolerance, and the start is kept. Termination of backtracking is not proved (it needs analysis; partial correctness), and a singular Hessian raises. Trusted: generator, numpy model, linear-algebra laws (each proved in Lean, statement generated, for vectors of finite support), vectors with the same entries are the same argument, z3; exact reals."),
    "C24": dict(level="proof", numpy=True, note="Every operator of expressions and variables (+, -, unary signs, multiplication, indexing, comparison), with a number, a variable or an expression on either side, is proved to give exactly the affine function or constraint stated and to leave its operands as they were; induction over the way an expression is built is by contract. Trusted: generator, container and numpy models, z3; exact reals. variables(count) is only covered by the bounded replay oracle."),
    "C25": dict(level="proof", numpy=True, note="minimize/maximize, subject_to (any number of constraints of any length), where (any number of restrictions), whereAllPositive/Negative and the program handed out afterwards are proved for every objective, list of constraints and earlier restrictions; the program is compared with the contract of LinearProgram's constructor (proved in C10). Trusted: generator, numpy and container models, finite cardinality, z3; exact reals. Attribute forwarding and repr are only covered by the bounded replay oracle."),
    "C26": dict(level="proof", numpy=True, note="Which texts are accepted is decided on regular languages: the patterns in the code are parsed by Python's re parser, character classes are read off Python's re over all code points, and for a text in each notation, and in none, every outcome of the real code is an InRe obligation for z3 (no bound on length). What is returned is proved with invariants on the three loops for a text of any number of tokens, sizes given or not, zero and repeated indices included. Trusted: what findall yields on a text of tokens is computed by running the pattern with re's priorities over the parts of an arbitrary token; float() and int() of decimal texts; generator, z3 (its decision procedure for regular languages); integers of any length convert. A text with a trailing line break may be accepted or refused. parse_multiple returns nothing and is not covered."),
    "C27": dict(level="proof", numpy=True, note="The formulation is proved for every well-formed non-empty graph, with invariants on its three loops: the mapping is a bijection onto the columns, the rows are exactly one per edge and one per column, and an integral vector is feasible exactly when it is the zero-one vector of a stable set; the objective coefficient of a vertex's column is its weight (so the objective is the total weight by renaming the sum). Trusted: generator, container and numpy models, finite cardinality, dot product with a vector of one or two ones, z3; exact reals."),
}
NA = {"C28": "The text is made by string formatting (number formatting, padding, joining), which no contract language within reach models; a deductive verifier would have to trust exactly the formatting the property is about."}
PENDING = "No contract is built for it yet."


def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na, meta = [], [], {}
    for p in props:
        if p in T:
            t = T[p]
            checks.append(dict(property=p, quick_cmd=f"python3-vt check.py {p}", thorough_cmd=f"python3-vt check.py {p} --tier thorough",
                               technique=t.get("technique", VC), level=t["level"], level_note=t["note"]))
            meta[p] = {k: v for k, v in t.items() if k != "note"}
        else:
            na.append(dict(property=p, reason=NA.get(p, PENDING)))
    m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
             notes="check.py re-generates every obligation from /repo's working tree on each run. Exit 1 also when an obligation fails without a failing input (the VIOLATION line then ends with no-failing-input-found). Code outside the verifier's reach is listed as undecided in the evidence and only covered by the bounded replay oracle.")
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    json.dump(meta, open(os.path.join(HERE, "contracts", "meta.json"), "w"), indent=1)


main()
