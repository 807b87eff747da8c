#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
B = "src/HybridSolver/main/"
BB = B + "algorithms/branch_and_bound.c"
TESTS = "The repository's tests assert nothing (a test passes when the function returns) and use one or two fixed graphs; "
P = []
def p(id, title, statement, over, q, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=q), why_tests_cant=TESTS + why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

p("C01", "Uninterrupted solver reports an optimal tour (within its own tolerance)",
  "When the branch-and-bound solver finishes without hitting its time limit on a complete symmetric instance with positive distances, the cost of the tour it reports exceeds the cost of no other tour by more than the solver's documented tolerance (1.27*sqrt(N)/1000, N the compiled capacity). This holds in the classic and in the hybrid mode, whatever edge probabilities the instance carries, when the instance has fewer cities than the capacity, and on incomplete instances that have a tour.",
  ["inputs", "configurations"], "every complete symmetric instance (distances, probabilities), both modes, number of cities up to the capacity",
  "optimality over all distance matrices is a statement about every input; no test compares a tour with the optimum.",
  [BB, B+"algorithms/prim.c", B+"data_structures/fibonacci_heap.c"],
  [("branch_and_bound", BB), ("bound", BB), ("branch", BB), ("variable_fixing", BB)], ["reported tour and value after branch_and_bound"])
p("C02", "The reported solution is a real tour whose cost is the sum of its distances",
  "Whenever a solver run on a complete instance ends, the reported solution visits every city exactly once and returns to its start using only roads of the instance, and the reported cost equals the sum of the input distances along it. This holds whichever way the solution was found (initial heuristics, relaxation, subgradient ascent) and in both modes; the reported probability is the mean of the probabilities of the tour's roads. On an incomplete instance the same holds when a tour is reported, and none is reported when none exists.",
  ["inputs", "configurations"], "every complete instance, both modes, any origin of the incumbent",
  "the reported edges and value are never checked.",
  [BB, B+"data_structures/mst.c"], [("nearest_prob_neighbour", BB), ("dfs/check_hamiltonian", BB), ("bound", BB)])
p("C03", "Bounding never discards a better tour",
  "When a search node is bounded, the lower bound it is left with never exceeds the cost of any tour that respects the node's mandatory and forbidden roads, and the node is closed as infeasible, dominated or solved only if no such tour beats the incumbent then known by more than the tolerance. An incumbent recorded while bounding is a tour of exactly the recorded cost.",
  ["inputs", "histories"], "every distance matrix, every set of mandatory/forbidden roads a search can produce, every incumbent value",
  "the bound of a node depends on all weights and constraints and is never compared with anything.",
  [BB], [("bound", BB), ("constrained_prim", BB), ("mst_to_one_tree", BB)])
p("C04", "Branching and constraint inference lose no tour",
  "Every tour that respects the constraints of a branched search node respects the constraints of at least one of its children, the two children decide the branching road in opposite ways, and a child is dropped only if no tour respects it. Roads forced or excluded by inference are forced or excluded in every tour that respects the child, and the recorded counts and list of mandatory roads agree with the constraint matrix.",
  ["inputs", "histories"], "every constraint matrix and branching road, both modes and both branching orders",
  "constraint propagation is only executed on two fixed 8-city runs and its result is not inspected.",
  [BB], [("branch", BB), ("infer_constraints", BB), ("copy_constraints", BB)])
p("C05", "Variable fixing keeps every improving tour",
  "When roads are fixed by reduced costs at a search node, every tour that respects the node's constraints and is strictly cheaper than the incumbent also respects the constraints after fixing. The counts and the list of mandatory roads stay consistent with the constraint matrix.",
  ["inputs"], "every distance matrix, constraint set and incumbent value, including instances smaller than the capacity",
  "fixing decisions depend on margins between real-valued costs no test varies.",
  [BB], [("variable_fixing", BB), ("max_edge_path_1Tree", BB)])
p("C06", "The relaxation is the cheapest 1-tree allowed by the constraints",
  "For every set of mandatory roads without a closed circuit and every set of forbidden roads, the 1-tree built for a search node contains all mandatory roads and no forbidden one, has the special city at degree two attached to a spanning tree of the other cities, and no other such 1-tree is cheaper. When no such 1-tree exists this is reported instead.",
  ["inputs", "configurations"], "every distance matrix, mandatory/forbidden sets, special city, with either tree algorithm",
  "minimality over all 1-trees cannot be sampled and the constrained builders have no test at all.",
  [BB], [("constrained_prim", BB), ("constrained_kruskal", BB), ("mst_to_one_tree", BB)])
p("C07", "Both spanning-tree algorithms return a minimum spanning tree",
  "For every graph, both spanning-tree algorithms return an acyclic set of roads of the graph that connects all cities with the least total weight, with consistent cost, degrees and adjacency, and mark it valid; if the graph is not connected the result is marked invalid. The two algorithms agree on the cost.",
  ["inputs", "configurations"], "every weighted graph (complete or not, ties included), both modes",
  "the tests run each algorithm once on one graph and print it.",
  [B+"algorithms/prim.c", B+"algorithms/kruskal.c", B+"data_structures/mst.c"], [("prim", B+"algorithms/prim.c"), ("kruskal", B+"algorithms/kruskal.c"), ("add_edge", B+"data_structures/mst.c")])
p("C08", "The priority queue always yields the smallest remaining key",
  "After any sequence of insertions, value decreases and extractions, an extraction returns an element whose current value is minimal among those still queued, each element is returned exactly once, and the reported number of elements is right. Extracting from an empty queue says so.",
  ["histories", "inputs"], "every operation sequence and all values, ties and repeated decreases included",
  "no test touches the heap directly; cascading cuts need particular histories.",
  [B+"data_structures/fibonacci_heap.c"], [("insert_node/extract_min/decrease_value", B+"data_structures/fibonacci_heap.c"), ("consolidate, cut, cascading_cut", B+"data_structures/fibonacci_heap.c")])
p("C09", "Disjoint sets represent exactly the merges performed",
  "After any sequence of merges and lookups, two elements have the same representative if and only if they were connected by merges, the representative is a member of the set, and lookups change no membership.",
  ["histories"], "every sequence of merges and lookups, with or without an excluded element",
  "the test prints one fixed merge sequence.",
  [B+"data_structures/mfset.c"], [("merge/find", B+"data_structures/mfset.c"), ("create_forest, create_forest_constrained", B+"data_structures/mfset.c")])
p("C10", "Sorting the roads orders them and keeps the graph consistent",
  "Sorting the roads of any graph yields a permutation of the same roads (end points, weight, probability, identity) in non-decreasing weight, roads of equal weight being ordered by non-increasing probability in hybrid mode. Afterwards every position recorded in the adjacency matrix still designates that road.",
  ["inputs", "configurations"], "every graph, any number of roads, all weights and probabilities, ties included, both modes",
  "two fixed inputs are sorted and printed.",
  [B+"algorithms/kruskal.c"], [("wrap_quick_sort, pivot_quicksort, swap", B+"algorithms/kruskal.c")])
p("C11", "Building a graph preserves the instance",
  "A graph built from lists of cities and roads has exactly those cities and roads, symmetric adjacency and neighbour lists, and a cost equal to the sum of the weights. A graph built from coordinates is complete and every weight is the Euclidean distance of its end points up to single precision.",
  ["inputs"], "every list of cities and roads, every set of coordinates",
  "results of construction are printed, not compared.",
  [B+"data_structures/graph.c"], [("create_graph, create_euclidean_graph", B+"data_structures/graph.c")])
p("C12", "Reading a distance-matrix file reproduces the instance",
  "Reading a well-formed distance/probability matrix file yields exactly the cities with their coordinates, one undirected road per positive off-diagonal distance with that distance, symmetric neighbour lists and, in hybrid mode, that probability (0 in classic mode). A malformed entry, or an instance larger than the compiled capacity, is refused with an error and a non-zero exit instead of being read wrongly.",
  ["inputs", "configurations"], "every instance file up to the capacity and beyond it, every malformed entry position",
  "one file is read and nothing about the result is checked.",
  [B+"tsp_instance_reader.c"], [("read_tsp_csv_file", B+"tsp_instance_reader.c")])
p("C13", "Reading a TSPLIB file reproduces the instance",
  "Reading a two-dimensional Euclidean TSPLIB file yields one city per coordinate line with those coordinates (up to single precision) in file order and all pairwise Euclidean distances. A file of another weight type, a malformed coordinate line or an instance larger than the compiled capacity is refused with an error and a non-zero exit.",
  ["inputs"], "every coordinate section, every weight type line",
  "the only test for it fails because its data file is missing.",
  [B+"tsp_instance_reader.c"], [("read_tsp_lib_file", B+"tsp_instance_reader.c")])
p("C14", "The initial incumbent is the best constructed greedy tour",
  "Starting a search from any city builds the nearest-neighbour tour and, in hybrid mode, the most-probable-neighbour tour, each step choosing an unvisited neighbour of least distance (largest probability). The incumbent afterwards is never worse than before nor than any tour so constructed, and on an instance where a construction gets stuck no incomplete tour becomes the incumbent.",
  ["inputs", "configurations"], "every instance (also with missing roads), every start city, both modes",
  "greedy choices on other matrices, ties and missing roads are never exercised.",
  [BB], [("nearest_prob_neighbour, find_candidate_node", BB)])
p("C15", "A 1-tree is recognised as a tour exactly when it is one",
  "For every 1-tree, the recognition step answers yes if and only if the 1-tree is a single cycle through all cities, and the cycle it records is then that cycle. Otherwise the recorded cycle is the unique cycle of the 1-tree.",
  ["inputs"], "every 1-tree and special city",
  "one fixed 1-tree is inspected and printed.",
  [BB], [("dfs, check_hamiltonian", BB)])
p("C16", "The special city is chosen as documented among all cities",
  "The special city selected at the start is one of the instance's cities and no other city has a minimum 1-tree that is better by the documented criterion (higher cost beyond the tolerance or, in hybrid mode, higher cost together with a clearly higher probability) than the one kept when it was examined. The selection leaves the instance's roads unchanged.",
  ["inputs", "configurations"], "every instance, both modes",
  "nothing checks which city is chosen.",
  [BB], [("find_candidate_node, compare_candidate_node", BB)])
p("C17", "Search nodes are opened in the documented best-first order",
  "A node is preferred to another exactly when its bound is lower by more than the tolerance or, in hybrid mode, when its bound is lower and its probability is higher by at least the stated threshold. A new child is queued before the first open node it is preferred to, and the relative order of the other open nodes is kept. Of the two children the one with the branching road mandatory goes first, except in hybrid mode for a road of probability below one half. The search always opens the node at the front of the queue.",
  ["inputs", "configurations"], "all pairs of bounds and probabilities, all open lists, both modes",
  "ordering decisions on other values are never looked at.",
  [BB, B+"data_structures/b_and_b_data.c"], [("compare_subproblems, branch", BB), ("add_elem_SubProblemList_index", B+"data_structures/b_and_b_data.c")])
p("C18", "Lists behave as sequences under every operation history",
  "Both list types (generic elements, open search nodes) behave as a plain sequence under any history of insertions at the end or at an index, deletions, indexed reads and iteration: order, size and both link directions agree, and out-of-range operations change nothing.",
  ["histories"], "every operation history up to the bound, every index",
  "no test of the lists exists.",
  [B+"data_structures/doubly_linked_list/list_functions.c", B+"data_structures/doubly_linked_list/list_iterator.c", B+"data_structures/b_and_b_data.c"],
  [("list operations and iterators", B+"data_structures/doubly_linked_list/list_functions.c")])
p("C19", "The time limit stops the search and is reported truthfully",
  "The search stops opening nodes once more than the configured limit of whole CPU seconds has elapsed since it started, for every clock reading, and then still reports a complete tour no worse than the initial heuristics. The result is flagged as interrupted if the limit was exceeded when the search stopped and never when it was not.",
  ["schedules", "inputs"], "every sequence of clock readings (any crossing point)",
  "the limit of ten minutes is never reached in a test.",
  [BB], [("time_limit_reached, branch_and_bound", BB)])
p("C20", "The printed report describes the solution found",
  "The report names the number of roads of the tour, prints them as one connected closed walk through every city in order, and its cost, probability, solution type, special city, tree statistics and interruption flag are those of the run. Every solution type is printed under its own label, as the result analyser expects.",
  ["inputs", "histories"], "every tour orientation the solver can store, every solution type",
  "output is written and never read back.",
  [BB, "src/HybridSolver/results/AdjacencyMatrix/analyzer.py"], [("print_subProblem, print_problem", BB)])
p("C21", "Solving leaves the instance unchanged and is repeatable",
  "A solver run leaves the distances, probabilities, adjacency and road order of the input instance exactly as they were, and running it again in the same process on the same instance reports the same tour and cost, also when the problem record was used for another instance in between.",
  ["inputs", "histories"], "every instance, both modes, repeated runs",
  "tests solve once per process and never compare the instance.",
  [BB], [("bound (reformulation graph), constrained_prim (graph copy)", BB)])
p("C22", "No run reads or writes outside its data or uses undefined values",
  "For every instance that fits the capacity, including instances smaller than the capacity and with missing roads, reading, solving and printing perform no out-of-bounds access, no use of freed memory, and take no decision on and report no value that was never initialised.",
  ["inputs", "configurations"], "every instance up to the capacity, complete or not, both modes",
  "memory errors need particular sizes and are silent in the release build the tests use.",
  [BB, B+"data_structures/graph.c", B+"data_structures/mst.c", B+"data_structures/fibonacci_heap.c"], [("fixed-size arrays", B+"data_structures/b_and_b_data.h"), ("variable_fixing", BB), ("consolidate", B+"data_structures/fibonacci_heap.c")])
p("C23", "The matrix file written for the solver is read back as the same instance",
  "The instance file written by the Python front end, from coordinates (classic) or from network probabilities and distances (hybrid), is read by the solver as the instance it was written from: same cities in the same order, same coordinates, same distances, same probabilities and number of cities.",
  ["inputs", "configurations"], "every set of coordinates, distances and probabilities, classic and hybrid writer",
  "no test covers the Python writers.",
  [B+"HybridSolver.py", B+"graph-convnet-tsp/main.py", B+"tsp_instance_reader.c"], [("adjacency_matrix, hybrid_solver", B+"HybridSolver.py"), ("write_adjacency_matrix", B+"graph-convnet-tsp/main.py")])
p("C24", "Padding and shrinking an instance to the network size keeps the instance",
  "Instances have distinct cities. When an instance has fewer cities than the network, the cities added are copies of the instance's in turn, the written matrix keeps the original cities and distances, and the entry from i to k is the largest probability the network gave from i to k or to an added copy of k. When it has more, every original city is present once, all distances are Euclidean and symmetric, and roads of added cities have probability 0.",
  ["inputs", "configurations"], "every probability matrix and distance matrix, every instance size against the network size",
  "no test covers the Python code.",
  [B+"graph-convnet-tsp/main.py"], [("write_adjacency_matrix, add_dummy_cities", B+"graph-convnet-tsp/main.py")])
p("C25", "The requested instances, and only those, are solved",
  "For every instance range, exactly the requested instances are solved in order, each on the coordinates of its own line of the instance file and with the matching mode, capacity and result file. A request beyond the end of the instance file is refused with an error, and a failed build or network run is reported as an error and nothing is solved with it. A result folder that another process makes at the same moment does no harm.",
  ["inputs", "configurations"], "every range, file length, size and mode",
  "no test covers the front end.",
  [B+"HybridSolver.py"], [("get_instance, hybrid_solver", B+"HybridSolver.py")])
p("C26", "The CPLEX data file describes the same Euclidean instance",
  "Converting a coordinate file for the CPLEX reference solver yields the number of cities and the full matrix of Euclidean distances of the coordinate lines, in order and symmetric.",
  ["inputs"], "every coordinate section",
  "the converter has no test.",
  ["src/CplexSolver/Data/TSPLIB/converter_tsp_to_dat.py"], [("convert_custom_euclidean", "src/CplexSolver/Data/TSPLIB/converter_tsp_to_dat.py")])
p("C27", "Tour helpers of the network agree with each other",
  "For every tour of three or more cities and every symmetric distance matrix, the length computed from the city order equals the length computed from the tour's adjacency matrix, which has exactly the tour's roads; an order is accepted as valid exactly when it is a permutation of the cities; the mean length of a batch of tours, given by their cities or by their predicted roads, is the mean of their lengths; and the neighbourhood size needed is the largest rank a tour's road has among the roads of its city.",
  ["inputs"], "every permutation and every symmetric distance matrix",
  "no test covers the Python code.",
  [B+"graph-convnet-tsp/utils/graph_utils.py"], [("tour_nodes_to_W, tour_nodes_to_tour_len, W_to_tour_len, is_valid_tour", B+"graph-convnet-tsp/utils/graph_utils.py")])
p("C28", "Instance files are read into the matching training tensors",
  "For every instance line, the reader used for the network yields the line's coordinates, their symmetric Euclidean distance matrix, the neighbourhood adjacency with self loops marked, and targets and length that describe exactly the closed tour given on the line.",
  ["inputs"], "every instance line (coordinates and tour), both neighbourhood settings",
  "no test covers the Python code.",
  [B+"graph-convnet-tsp/utils/google_tsp_reader.py"], [("process_batch", B+"graph-convnet-tsp/utils/google_tsp_reader.py")])
p("C29", "The analyser's results are those of the reports the solver printed",
  "For every set of reports the solver can print, the analyser accepts them and its results file shows: the share of instances resolved (not interrupted) and of each closing type; for times, node counts, tree levels, probability and cost, the mean and 95% half-width over the instances both modes resolved, read to the printed precision, with the significance of exactly those pairs; the curve of the generated nodes of each mode, plain and as logarithms (mean, mean less and plus the standard deviation); and the list of the instances not resolved.",
  ["inputs", "histories"], "every report content (all solution types, interrupted or not, all numbers), every set of resolved instances",
  "no test covers the analyser.",
  ["src/HybridSolver/results/AdjacencyMatrix/analyzer.py", BB], [("read_values, significance_test, analyze", "src/HybridSolver/results/AdjacencyMatrix/analyzer.py"), ("print_problem", BB)], ["mean_results/N_nodes/mean_results.txt"])
p("C30", "Edge probabilities come from the instance the network was asked about",
  "The probabilities attached to an instance are those the network computed for that instance and not for another line of the file, whatever order the data set is read in and whatever the network answers; and the network is the one trained for the size asked for, with the weights that were best in its validation.",
  ["inputs", "histories"], "every data set order and instance",
  "no test covers the Python code.",
  [B+"graph-convnet-tsp/main.py"], [("compute_prob", B+"graph-convnet-tsp/main.py")])
p("C31", "Beam search returns valid tours over the network's probabilities",
  "For every matrix of edge probabilities and beam width, each tour returned by the beam search visits every city exactly once; a beam of one place follows the most probable road to an unvisited city, one with room for every tour returns the most probable tour; in shortest mode the tour is the shortest valid one left in the beam.",
  ["inputs"], "every probability matrix and beam width",
  "needs torch, which no test loads.",
  [B+"graph-convnet-tsp/utils/beamsearch.py", B+"graph-convnet-tsp/utils/model_utils.py"], [("Beamsearch, beamsearch_tour_nodes_shortest", B+"graph-convnet-tsp/utils/model_utils.py")])
p("C32", "The graph network treats cities consistently under relabelling",
  "Relabelling the cities of an instance relabels the network's edge scores in the same way and changes nothing else (other instances of the batch, the loss), and with symmetric distances a road has the same scores in both directions.",
  ["inputs"], "every instance, every permutation, all weights",
  "needs torch and trained weights.",
  [B+"graph-convnet-tsp/models/gcn_model.py", B+"graph-convnet-tsp/models/gcn_layers.py"], [("ResidualGatedGCNModel.forward", B+"graph-convnet-tsp/models/gcn_model.py")])
p("C33", "The reference model's solutions are exactly the tours",
  "For every cost matrix, the feasible 0/1 assignments of the integer programming reference model, without its diagonal, are exactly the directed Hamiltonian cycles over the cities, every such cycle is feasible, and the objective is the cycle's length. Its optimum is therefore the optimal tour length the solver is compared with.",
  ["inputs"], "every cost matrix and number of cities",
  "the model is never run by the tests.",
  ["src/CplexSolver/TSPmtz.mod"], [("constraints and objective", "src/CplexSolver/TSPmtz.mod")])
p("C34", "The performance profiles count what the reports say",
  "For every set of reports, the improvement profile has one point at each time at which some run found a solution, in order, and shows the share of instances on which each mode's best solution so far is better than the other's by at least the solver's tolerance (a mode without a solution is behind one that has one, and neither is ahead while both have none). The cumulative profile shows the share of instances each mode has solved by each time at which one was solved.",
  ["inputs", "histories"], "every sequence of improvements (times and values) of both modes, interrupted or not",
  "no test covers the analyser.",
  ["src/HybridSolver/results/AdjacencyMatrix/analyzer.py"], [("improvement_profile, cumulative_profile", "src/HybridSolver/results/AdjacencyMatrix/analyzer.py")], ["performance_profile.csv, cumulative_profile.csv"])
p("C35", "The result tables show the analysed figures in their places",
  "Whatever the results of the six sizes, the two LaTeX tables show for each size and quantity the classic and the hybrid mean and interval, to two decimals, in their columns; the smaller of two shown means, and only it, is bold, underlined when the difference is significant at 5%; and shares and probabilities stand in their columns.",
  ["inputs"], "every results file",
  "no test covers the analyser.",
  ["src/HybridSolver/results/AdjacencyMatrix/analyzer.py"], [("create_tables, modify_string", "src/HybridSolver/results/AdjacencyMatrix/analyzer.py")], ["exact_table.tex, heur_table.tex"])
p("C36", "The network is the published one",
  "The network has exactly the parameters, by name and size, of the published checkpoints it is loaded from, and for every value of them its edge scores are those of the documented residual gated graph convolution (layer formulas, gating, normalisation over the batch, residual connections, classifier) and its losses, over roads and over cities, are the weighted log-likelihoods; a learning rate that is set holds for every group of parameters.",
  ["inputs"], "every weight, every batch of instances, both aggregations, every number of layers within the bounds",
  "needs torch and trained weights, which no test has.",
  [B+"graph-convnet-tsp/models/gcn_model.py", B+"graph-convnet-tsp/models/gcn_layers.py"], [("ResidualGatedGCNModel.forward, ResidualGatedGCNLayer.forward, NodeFeatures, EdgeFeatures, BatchNorm*, MLP", B+"graph-convnet-tsp/models/gcn_layers.py")])
p("C37", "The prediction errors count exactly the roads predicted wrong",
  "For every batch of predictions, the three edge errors are the mean over the batch of the share (in percent) of roads predicted wrong, among the roads of the graph (weighted as in its adjacency matrix), of the target tour, and of the target tour or prediction; and exactly the instances with such a wrong road are marked.",
  ["inputs"], "every prediction and target",
  "no test covers the Python code.",
  [B+"graph-convnet-tsp/utils/model_utils.py"], [("edge_error, _edge_error", B+"graph-convnet-tsp/utils/model_utils.py")])
p("C38", "The training data tools keep instances and their solutions together",
  "The generator writes as many instances as asked for, each with coordinates of its own and the closed tour that was found for exactly these cities, in the form the network's reader takes; splitting a file puts the first instances, as many as asked for, into the validation file and every other one, unchanged and in order, into the training file; and the results of the reference solver show for every instance, in order, its tour, its time, its nodes and the length of its closed tour, and their means.",
  ["inputs"], "every set of coordinates, every tour found, every place of the split",
  "no test covers the tools, which need the Concorde package.",
  [B+"graph-convnet-tsp/data"], [("main block", B+"graph-convnet-tsp/data/generate_tsp_concorde.py"), ("main block", B+"graph-convnet-tsp/data/split_train_val.py"), ("main block", B+"graph-convnet-tsp/data/pyconcorde_solver.py")])
p("C39", "The figures show the instances, predictions and tours they are of",
  "For every batch and every prediction, as many figures are shown as were asked for, each of another instance: its cities stand at their coordinates and the first is told from the others; the optimal tour and the tour of the beam search are drawn in red, next to the roads the network was given, and titled with their lengths to three decimals; and the prediction shows exactly the roads with a probability above a quarter, each coloured by its own probability.",
  ["inputs"], "every batch of instances, tours and probabilities",
  "no test covers the Python code.",
  [B+"graph-convnet-tsp/utils/plot_utils.py"], [("plot_tsp, plot_tsp_heatmap, plot_predictions, plot_predictions_beamsearch", B+"graph-convnet-tsp/utils/plot_utils.py")])
p("C40", "A configuration is its file over the defaults",
  "Whatever the configuration file says, a parameter has the file's value if the file has it and its default otherwise; the same value is seen as attribute and as item; setting or deleting a parameter changes that parameter of that configuration only; a parameter that is nowhere is an error; and every documented parameter has a default.",
  ["inputs", "histories"], "every set of parameters in the file, every value",
  "no test covers the Python code.",
  [B+"graph-convnet-tsp/config.py"], [("Settings, get_default_config, get_config", B+"graph-convnet-tsp/config.py")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
