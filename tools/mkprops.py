"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": None}})
LIN = "pytimize/programs/_linear.py"; INT = "pytimize/programs/_integer.py"; UNC = "pytimize/programs/_unconstrained.py"
DG = "pytimize/graphs/_directed.py"; UG = "pytimize/graphs/_undirected.py"
CMP = "pytimize/utilities/_comparator.py"; DSJ = "pytimize/utilities/_disjoint.py"
F = "pytimize/formulations/linear/"
prop("C01", "Tolerant comparisons are coherent",
     "For all finite numbers, the tolerant comparison answers `>=` exactly when it does not answer `<` and `<=` exactly when it does not answer `>`, a value within tolerance of the test (1e-10 of zero, numpy closeness to any other number) satisfies both `<=` and `>=` and neither strict comparison, and outside the tolerance the answer is the exact one. Positive, negative and close-to-zero divide the numbers between them, and a number is integral exactly when it lies within 1e-10 of an integer. For arrays the answer is the conjunction over the entries.",
     ["inputs"], "all finite numbers, all arrays, all four operators",
     "Tests sample about a hundred number pairs; the claim is about every number including those around the tolerance and every array.",
     [CMP], [("is_close_compare", CMP), ("is_close_to_zero", CMP), ("is_integer", CMP), ("is_negative / is_positive", CMP)])
prop("C02", "Disjoint sets are exactly what the unions made them",
     "After any sequence of finds and unions, two items have the same representative exactly when a chain of performed unions links them, the representative is itself a member of the set, and finding never changes which items are together. Duplicate initial items and unknown items are rejected with a ValueError and change nothing.",
     ["histories", "inputs"], "all item collections and all sequences of find and union calls",
     "There is no test of the disjoint set at all; the claim is over every operation history.",
     [DSJ], [("find with path compression", DSJ), ("union by rank", DSJ)], [("parent links", "forest over the items", "DisjointSet._set")])
prop("C03", "An undirected graph always describes one graph",
     "After any sequence of constructing, adding, removing, reweighting and copying, the adjacency of an undirected graph is symmetric and loop free, its edges are exactly the adjacent pairs (each once, in sorted order), its vertices are exactly the adjacency keys, and each operation has changed only the edge, vertex or weight it names. Operations that refuse (existing or missing edge or vertex, equal endpoints, empty name, negative weight on adding) raise ValueError and leave the graph as it was. A copy is equal to the original, and the copy and the mappings the graph hands out can be modified without affecting it.",
     ["histories", "inputs"], "all graphs and all sequences of the mutating and copying operations",
     "Tests exercise single calls on a few fixed graphs, never consistency after arbitrary histories or sharing between copies.",
     [UG], [("add_edge / remove_edge / add_vertex", UG), ("set_edge_weight / set_vertex_weight", UG), ("constructor", UG), ("copy, graph, edges, vertices", UG)],
     [("adjacency, edges, vertices", "three views that must agree", "UndirectedGraph._graph/_edges/_vertices")])
prop("C04", "A directed graph always describes one digraph",
     "After any sequence of constructing, adding and removing arcs, adding nodes and setting weights or demands, the successor sets of a directed graph are exactly its arcs, every arc joins two different existing nodes, and each operation has changed only the arc, node or weight it names (plus the endpoints it had to create, with the demands given for them, or the isolated endpoints it was told to drop). Operations that refuse (existing or missing arc or node, equal endpoints, missing demands for two new nodes) raise and leave the digraph as it was.",
     ["histories", "inputs"], "all digraphs and all sequences of the mutating operations",
     "The tests build digraphs only as input for max flow; no test looks at consistency after histories with removals or refused operations.",
     [DG], [("add_arc / remove_arc / add_node", DG), ("set_arc_weight / set_node_weight", DG), ("constructor", DG)],
     [("successors, arcs, nodes", "three views that must agree", "DirectedGraph._graph/_arcs/_nodes")])
prop("C05", "Cuts and degrees count exactly the crossing edges",
     "For every graph and every vertex or set of vertices, the undirected cut is exactly the set of edges with one endpoint inside, the directed cut exactly the arcs leaving the set and the negative cut exactly the arcs entering it, and degree, indegree, outdegree and connections are the sizes of those sets. A string always means the one vertex of that name, whatever its length, and asking changes nothing.",
     ["inputs"], "all graphs, all vertex names of any length, all vertex sets given as any collection",
     "Tests use one fixed graph with one-letter names, where a name and its set of characters coincide.",
     [UG, DG], [("cut / degree", UG), ("cut / ncut / indegree / outdegree / connections", DG)])
prop("C06", "Traversal, connectivity, tree and cycle answers are right",
     "For every undirected graph, traversal yields each vertex reachable from the start exactly once, beginning with the start (random traversal: every vertex of the graph exactly once), and an unknown start is rejected. A graph is reported connected exactly when it is non-empty and every vertex is reachable from every other, cyclic exactly when some edge lies on a cycle, and a tree exactly when it is connected and not cyclic. Partition splits it into its connected components, each with exactly its own vertices, edges and weights.",
     ["inputs"], "all undirected graphs, starts, methods and orderings",
     "Tests cover is_tree on eight graphs; traversal, cycles, connectivity and partition are untested and quantify over all graphs.",
     [UG], [("traverse / bfs / dfs", UG), ("is_connected / has_spanning_tree", UG), ("is_tree / is_cyclic", UG), ("partition", UG)])
prop("C07", "Ford-Fulkerson returns a maximum flow",
     "For every digraph with nonnegative capacities (arbitrary names, cycles, antiparallel arcs, zero capacities, arcs into the source or out of the sink) and every two different nodes, the returned flow has one entry per arc, lies between zero and the capacity on each arc, conserves flow at every other node, and its net outflow at the source is the returned value. No feasible flow has a larger value: some set containing the source but not the sink has all leaving arcs saturated and all entering arcs empty. Unknown or equal source and sink are rejected, and the digraph is not changed.",
     ["inputs"], "all digraphs with nonnegative capacities, all source/sink pairs",
     "Four fixed small networks are tested, none of which needs flow to be pushed back or has antiparallel arcs or long names.",
     [DG], [("augmenting-path loop", "DirectedGraph.ford_fulkerson"), ("breadth-first path search", "DirectedGraph._bfs_path"), ("residual update", "DirectedGraph._push_flow")])
prop("C08", "Preflow-push returns a maximum flow",
     "For every digraph with nonnegative capacities and every two different nodes, the preflow-push result is a feasible, conserving flow whose net outflow at the source is the returned value, and no feasible flow has a larger value; hence it agrees in value with Ford-Fulkerson. Unknown or equal source and sink are rejected, and the digraph is not changed.",
     ["inputs"], "all digraphs with nonnegative capacities, all source/sink pairs",
     "Four fixed small networks are tested; termination state, relabelling and pushing back excess matter only on others.",
     [DG], [("push / relabel loop", "DirectedGraph.preflow_push"), ("residual update", "DirectedGraph._push_flow")])
prop("C09", "The residual digraph is exactly the remaining capacity",
     "For every digraph with nonnegative capacities and every arc flow within them (arcs left out count as zero), the residual digraph has an arc from u to v exactly when unused capacity of (u, v) plus flow on (v, u) is positive, with that sum as its weight. Flows on unknown arcs, negative flows, negative capacities and flows above capacity are rejected, and neither the digraph nor the flow is changed.",
     ["inputs"], "all digraphs, all flows",
     "Residual creation has no test.",
     [DG], [("create_residual", DG), ("_compute_residual", DG)])
prop("C10", "A linear program is accepted only when well formed, and kept as given",
     "Constructing a linear program succeeds exactly when the matrix is two-dimensional and rectangular with numeric entries, the vectors fit it, the variable index lists hold distinct in-range positions and do not overlap, there is one valid relation per row when relations are given, and the objective is min or max; otherwise it raises ValueError. An accepted program reports back exactly the matrix, vectors, constant, objective, relations (equality by default) and, sorted, the free, negative and remaining variables it was given. It is in standard equality form exactly when it maximises, has only equalities and only nonnegative variables.",
     ["inputs"], "all matrices, vectors, relation lists and index lists",
     "Tests sample a dozen valid and invalid constructions.",
     [LIN], [("constructor validation", "LinearProgram.__init__"), ("array conversion", "LinearProgram.__to_ndarray"), ("accessors", LIN)])
prop("C11", "Programs are isolated from callers, copies and derived programs",
     "Queries, conversions and algorithms that are not asked to work in place leave a linear program exactly as it was, also when they raise; only its log of steps may grow. A program shares no mutable state with the arrays and lists it was built from, with its copies, its dual, its auxiliary program, its relaxation or the programs that conversions return: changing one in place never changes another, and a copy equals its original. The in-place variants return the program itself with the same data the copying variant would have produced.",
     ["histories", "inputs"], "all programs, all operations and all sequences of in-place changes on related programs",
     "Tests check that simplex keeps A and that copies are different objects, not that nothing anywhere is shared or modified.",
     [LIN, INT], [("copy and in_place handling", LIN), ("constructor copies its arrays", LIN), ("relax", INT)])
prop("C12", "Adding constraints and variables changes the program by exactly that",
     "Adding a constraint appends one row with exactly the given coefficients, relation and value and leaves every other part as it was, so that the feasible points are exactly the old ones satisfying it; adding a variable appends one column, objective coefficient and sign restriction and nothing else, so that fixing it at zero gives back the old program. The program is afterwards in standard equality form only if it was and the addition is an equality row or a nonnegative column. Malformed additions (wrong length, unknown relation, both free and negative) raise ValueError and change nothing.",
     ["inputs", "histories"], "all programs and additions, in place or not, repeated",
     "add_constraint and add_variable have no tests.",
     [LIN], [("add_constraint", LIN), ("add_variable", LIN)])
prop("C13", "Standard equality form is the same problem",
     "For every linear program the standard equality form maximises, has only equality rows and nonnegative variables, keeps the right-hand side and the constant, and corresponds to the original both ways: recombining the split free variables, negating the negative ones and dropping slacks maps every feasible point to a feasible point of the original, and every feasible original point arises in this way. Under this map the linear objective is unchanged for maximisation and negated for minimisation.",
     ["inputs"], "all programs: any mix of relations, any subset of free and negative variables, both objectives",
     "Five fixed conversions are compared with expected matrices.",
     [LIN], [("to_sef", LIN)])
prop("C14", "The dual bounds the primal and its dual is the primal",
     "For every linear program (its constant aside) and every feasible point of it and of its dual, the objective of the maximising one is at most that of the minimising one. The dual has one variable per row and one row per variable with the sign restrictions and relations of duality, and the dual of the dual is the original program with constant zero.",
     ["inputs"], "all programs, all pairs of feasible points",
     "The dual has no test.",
     [LIN], [("dual", LIN)])
prop("C15", "Bases and basic solutions are recognised and computed correctly",
     "A list of column positions is accepted as a basis exactly when it has one valid position per row and its columns are linearly independent (determinant not within 1e-10 of zero). The basic solution of a basis, in whatever order it is listed, satisfies the equations and is zero outside the basis; a vector is reported a (feasible) basic solution exactly when it satisfies the equations, vanishes outside the basis (and is nonnegative), up to tolerance; a basis is feasible exactly when its basic solution is nonnegative.",
     ["inputs"], "all programs, all index lists in any order, all vectors",
     "Tests check four bases in ascending order and two basic solutions.",
     [LIN], [("is_basis / is_basis_feasible", LIN), ("compute_basic_solution", LIN), ("is_basic_solution / is_feasible_basic_solution", LIN)])
prop("C16", "Canonical form is an equivalent program",
     "For every program in standard equality form and every basis of it, the canonical form has the identity in the basis columns and zero objective coefficients there, has exactly the same solutions of its equations, and gives every such solution the same objective value. Programs not in standard equality form and lists that are not bases are rejected, and canonical-form recognition agrees with that definition.",
     ["inputs"], "all programs in standard equality form, all bases",
     "Two bases of one program are tested.",
     [LIN], [("to_canonical_form", LIN), ("is_canonical_form_for", LIN)])
prop("C17", "Simplex outcomes are certified",
     "For every program in standard equality form and every basis (one iteration or run to the end), an optimal outcome is a basic solution that satisfies the equations and is nonnegative, with a dual vector that is feasible and has the same objective value; an unbounded outcome is a feasible point and a nonnegative direction in the null space of the constraints with positive objective (all up to the tolerance of 1e-10). A single iteration otherwise replaces one column of the basis by an improving column and, from a feasible basis, stays feasible and never lowers the objective. Bases whose final point is infeasible are refused with ArithmeticError.",
     ["inputs"], "all programs in standard equality form, all starting bases",
     "Tests check eleven fixed runs; the certificates must be right on every program, including degenerate and nearly tied ones.",
     [LIN], [("simplex_iteration", LIN), ("simplex", LIN)])
prop("C18", "Two-phase simplex decides every program with a valid certificate",
     "For every program in standard equality form with independent rows, two-phase simplex ends in exactly one of three ways: an optimal basic solution with its basis and a feasible dual vector of equal value; unboundedness, with a feasible point and an improving ray; or infeasibility, with a vector y such that yA is nonnegative and yb negative (all up to tolerance). The outcome is the true status of the program. Programs not in standard equality form are rejected.",
     ["inputs"], "all programs in standard equality form",
     "Tests check a handful of runs; degenerate phase-one optima with artificial columns left in the basis are the rare case.",
     [LIN], [("two_phase_simplex", LIN), ("auxiliary", LIN), ("simplex", LIN)])
prop("C19", "Solving any linear program gives an optimum in its own variables",
     "For every linear program with independent constraint rows, whatever its relations, sign restrictions and objective, solving returns a vector in the original variables that satisfies every constraint and sign restriction and that no feasible point beats, whenever the program has an optimum; it returns nothing exactly when the program is infeasible or unbounded. The reported optimal value is the objective (constant included) at that vector.",
     ["inputs"], "all programs in any form",
     "Nine fixed programs are solved in tests.",
     [LIN], [("solve", LIN), ("optimal_value", LIN), ("reverse of the SEF conversion", LIN)])
prop("C20", "Certificate checks accept exactly the valid certificates",
     "For every program in standard equality form and every vector y: it is accepted as infeasibility certificate exactly when yA is nonnegative and yb negative, as optimality certificate exactly when yA is at least c; a pair (x, d) is accepted as unboundedness certificate exactly when x is feasible, d is nonnegative, Ad is zero and cd positive (all up to the library's tolerance). Hence no program with a feasible point has an accepted infeasibility certificate with exact margins, and an accepted dual vector bounds every feasible objective. Programs not in standard equality form are refused.",
     ["inputs"], "all programs in standard equality form, all candidate vectors",
     "Only infeasibility certificates are tested, on four programs.",
     [LIN], [("verify_infeasibility", LIN), ("verify_unboundedness", LIN), ("verify_optimality", LIN)])
prop("C21", "Feasibility and evaluation mean what the program says",
     "For every linear program and every vector of its size, the vector is reported feasible when it satisfies every row relation and every sign restriction exactly, and not when it misses one by more than the closeness tolerance; vectors of the wrong size are rejected. Evaluation gives the linear objective plus the constant, and the value of an infeasible vector is refused with ValueError.",
     ["inputs"], "all programs in any form, all vectors",
     "About a dozen vectors are tested, one program with free and none with negative variables.",
     [LIN], [("is_feasible", LIN), ("evaluate / value_of", LIN)])
prop("C22", "Branch and bound returns the integral optimum",
     "For every integer program whose relaxation is bounded and whose equality rows are independent, branch and bound returns a vector that satisfies all constraints and sign restrictions, is integral (within 1e-10) in every variable declared integral, and is at least as good as every such vector, for maximisation and minimisation alike; it returns nothing when there is none. The relaxation is the same program without integrality.",
     ["inputs"], "all integer programs with bounded relaxation, any relations, sign restrictions and integral subsets",
     "One maximisation program with two nonnegative variables is tested.",
     [INT, LIN], [("branching recursion", "IntegerProgram.__branch"), ("branch_and_bound", INT), ("relax", INT)])
prop("C23", "Descent methods return improving, stationary points",
     "For every differentiable target, starting point and parameter choice, the steepest descent result has objective no worse than the start (lower for min, higher for max), each step satisfying the sufficient-decrease test for the returned objective direction; both steepest descent and Newton's method end only when the gradient norm is within the tolerance or the iteration limit is used up, and Newton steps solve the Hessian system. The point itself is returned for both objectives, and the caller's starting point is not modified.",
     ["inputs"], "all target functions with gradient and Hessian, all starts, parameters and both objectives",
     "One function with one start is tested, minimising only.",
     [UNC], [("steepest_descent", UNC), ("newton_method", UNC)])
prop("C24", "Formulation arithmetic means what it says",
     "Every expression built from variables and numbers with +, -, unary signs and multiplication by a number denotes exactly that affine function (coefficients and constant), and building on an expression never changes that expression or any other. A comparison of two such expressions (in either order, constants or bare variables included) is the constraint with all variables on the left and all constants on the right; comparisons without any variable are rejected.",
     ["programs", "inputs"], "all expression trees over variables and numbers, all reuses of subexpressions",
     "Tests build two sums; no test has a constant inside a negated or scaled expression or reuses an expression.",
     [F + "_equation.py", F + "_variable.py", F + "_constraint.py"], [("LinearEquation operators", F + "_equation.py"), ("Variable operators", F + "_variable.py")])
prop("C25", "A formulated model becomes exactly the program that was written",
     "The program assembled from an objective, constraints and variable restrictions has exactly the written objective (direction, coefficients, constant), one row per constraint in order with its coefficients, relation and right-hand side, and one column per variable up to the highest one used; variables restricted to be nonnegative or nonpositive are so and all others are free. Contradictory or repeated restrictions are rejected, and later restrictions are reflected in the program.",
     ["programs", "histories"], "all objectives, constraint lists and sequences of where calls",
     "One two-variable model is tested end to end.",
     [F + "_objective.py", F + "_abstract.py", F + "_utilities.py"], [("subject_to", F + "_objective.py"), ("where / whereAllPositive / whereAllNegative / program", F + "_abstract.py"), ("pad_right", F + "_utilities.py")])
prop("C26", "Parsers accept exactly their notation and read it faithfully",
     "The graph parser accepts exactly its four notations (edges as two word characters or two hyphenated words, with or without decimal weights, separated by one white space, one notation per text, a trailing line break aside) and returns for each edge, in order, its two ends and its weight, zero when none is written. The linear parser accepts exactly signed sums of decimal coefficients times indexed variables and returns the row vector holding each coefficient at its index and zeros elsewhere, padded to the requested size; anything else, a repeated or zero index included, is rejected.",
     ["inputs"], "all texts",
     "About fifteen texts are tested, one for the linear parser.",
     ["pytimize/parsers/_graph.py", "pytimize/parsers/_linear.py"], [("GraphParser.parse / get_expression_type", "pytimize/parsers/_graph.py"), ("LinearParser.parse / validate_expression", "pytimize/parsers/_linear.py")])
prop("C27", "The stable-set formulation models exactly the stable sets",
     "For every non-empty undirected graph, the integral feasible points of the maximum-stable-set formulation are exactly the 0/1 vectors that select, under the returned vertex-to-position mapping (a bijection onto the columns), a set of pairwise non-adjacent vertices, and the objective is the total weight of the selected vertices. The graph is not changed.",
     ["inputs"], "all undirected graphs with vertex weights",
     "The test of the formulation is empty.",
     [UG], [("formulate_max_stable_set", UG)])
prop("C28", "The printed program is the program",
     "The text of a linear program shows, row by row and up to the documented rounding, exactly its objective, coefficients, relations, right-hand sides and sign restrictions.",
     ["inputs"], "all programs",
     "Twenty fixed texts are compared.",
     [LIN], [("__repr__ / _format_number", LIN)])
with open("/verif/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
