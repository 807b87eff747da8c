OPT = """. "$(dirname "$0")/cc.sh"
%s"""
SEEDS = []
def seed(id, prop, edits, demo, files, needs, breaks, **kw): SEEDS.append(dict(id=id, property=prop, edits=edits, demo=demo, files=files, needs=needs, breaks=breaks, **kw))
def opt(id, prop, edits, runs, needs, breaks, **kw):
    """runs: (capacity, hybrid, arguments)"""
    d, seen = '. "$(dirname "$0")/cc.sh"\n', set()
    for c, h, a in runs:
        if (c, h) not in seen: d += "cc1 %d %d o%d_%d opt.c\n" % (c, h, c, h); seen.add((c, h))
    for c, h, a in runs: d += '"$T/o%d_%d" %s || exit 1\n' % (c, h, a)
    seed(id, prop, edits, d, ["opt.c", "cc.sh"], needs, breaks, **kw)
BB = "algorithms/branch_and_bound.c"

opt("c05-special-city-limit", "C05", [(BB, "if (first_candidate_edge_weight > second_candidate_edge_weight){", "if (first_candidate_edge_weight < second_candidate_edge_weight){")],
    [(8, 0, "r 8 400"), (8, 1, "e 8 400"), (8, 0, "t 8 400")], "an open node where forbidding a road of the special city is decided by which of its two 1-tree roads would leave", "variable fixing forbids roads of the special city that an improving tour uses")
opt("c03-bound-too-high", "C03", [(BB, "if (generatedSubProblem->value > best_subproblem.value &&\n                generatedSubProblem->value <= best_lower_bound) {", "if (generatedSubProblem->value > best_subproblem.value) {")],
    [(8, 0, "r 8 400"), (8, 1, "e 8 400")], "a subgradient 1-tree whose real cost exceeds the best lower bound and the incumbent's margin", "a node gets a bound above the cost of a tour below it and is pruned")
opt("c04-inference-degree", "C04", [(BB, "} else if (num_nodes - num_forbidden_node == 2) {\n\n            if (num_nothing_node + num_mandatory_node == 2) {", "} else if (num_nodes - num_forbidden_node <= 3 - (num_mandatory_node == 0)) {\n\n            if (num_nothing_node + num_mandatory_node <= 3) {")],
    [(12, 0, "r 11 300"), (12, 0, "t 10 400"), (12, 1, "e 11 300")], "a city with one mandatory and two undecided roads left", "inference makes both undecided roads mandatory: every tour using only one of them is lost")
opt("c03-weights-not-restored", "C03", [(BB, "                    *used_graph = problem->graph;\n                    add_elem_SubProblemList_bottom", "                    if (iter + 1 < max_iter) *used_graph = problem->graph;\n                    add_elem_SubProblemList_bottom")],
    [(8, 0, "r 8 400"), (8, 1, "e 8 400"), (8, 0, "t 8 300")], "the working graph keeps the penalties of the last round, so the next node's dual rounds start from shifted distances", "bounds of later nodes are computed on distances that are not the instance's")
opt("c02-cycle-count", "C02", [(BB, "return subProblem->num_edges_in_cycle == subProblem->oneTree.num_edges;", "return subProblem->num_edges_in_cycle + 1 >= subProblem->oneTree.num_edges;")],
    [(8, 0, "r 8 400"), (8, 1, "e 8 400")], "a 1-tree whose cycle misses exactly one city", "a 1-tree with one pendant road is accepted as a tour")

opt("c01-incumbent-from-bound", "C01", [(BB, "if (problem->bestValue - analyzedSubProblem.value <= EPSILON) {\n                        analyzedSubProblem.type = CLOSED_BOUND;", "if (problem->bestValue - analyzedSubProblem.value <= EPSILON && iter > 1) {\n                        analyzedSubProblem.type = CLOSED_BOUND;")],
    [(8, 0, "r 8 400"), (8, 1, "e 8 400")], "a tour met again in the first round of a later node, no better than the incumbent", "a worse 1-tree tour replaces the incumbent")
seed("c06-third-mandatory", "C06", [(BB, "i < candidate.num_neighbours && toAdd<=2; i++)", "i < candidate.num_neighbours && toAdd<2; i++)")],
    """. "$(dirname "$0")/cc.sh"
cc1 6 0 a onetree.c
"$T/a" """, ["onetree.c", "cc.sh"], "a special city with three mandatory roads", "the relaxation ignores the third mandatory road instead of being unfeasible")
seed("c09-merge-non-root", "C09", [("data_structures/mfset.c", "            set1_root->parentSet = set2_root;", "            set1->parentSet = set2_root;")],
    """. "$(dirname "$0")/cc.sh"
cc1 6 0 a mfset.c
"$T/a" """, ["mfset.c", "cc.sh"], "merging through an element that is not the root of its set, into a set of higher rank", "the root of the smaller set and its other elements stay behind")
seed("c08-head-child", "C08", [("data_structures/fibonacci_heap.c", "        if(parent->tail_child_list->key == node->key){\n            parent->tail_child_list = node->left_sibling;\n        }\n        node", "        node")],
    """. "$(dirname "$0")/cc.sh"
cc1 6 0 a heap.c
"$T/a" """, ["heap.c", "cc.sh"], "the value of the last child of a tree with three or more children is decreased below its parent's, then another tree is linked", "elements get lost from the queue or come out of order")
seed("c12-row-offset", "C12", [("tsp_instance_reader.c", "                if (weight > 0) {\n                    if (j > i) {", "                if (weight > 0 || (z > 0 && j > i && weight == 0 && graph->nodes[i].num_neighbours == 0)) {\n                    if (j > i) {")],
    """. "$(dirname "$0")/cc.sh"
cc1 8 1 a csv.c
"$T/a" "$T" || exit 1
cc1 6 0 b csv.c
"$T/b" "$T" """, ["csv.c", "cc.sh"], "a missing road that comes first among the roads of a city", "a road that the instance does not have is added with length 0")
def cdemo(name, *confs, flags="", args=""):
    d = '. "$(dirname "$0")/cc.sh"\n'
    for i, (c, h) in enumerate(confs): d += 'cc1 %d %d a%d %s %s\n"$T/a%d" "$T" || exit 1\n' % (c, h, i, name, ('"%s"' % flags) if flags else "", i)
    return d
seed("c10-pivot-probability", "C10", [("algorithms/kruskal.c", "            pivot_weight = middle_edge.weight;\n            pivot_prob = middle_edge.prob;\n            swap(graph, first, middle);\n        }\n    }\n    unsigned short j", "            pivot_weight = middle_edge.weight;\n            swap(graph, first, middle);\n        }\n    }\n    unsigned short j")],
    cdemo("sort.c", (8, 1), (8, 0)), ["sort.c", "cc.sh"], "hybrid mode, a range with equal distances and different probabilities whose middle road is the pivot", "roads of equal distance are left out of probability order")
seed("c11-opposite-signs", "C11", [("data_structures/graph.c", "pow(fabs(node_src->x - node_dest->x), 2)", "pow(fabs(fabs(node_src->x) - fabs(node_dest->x)), 2)")],
    cdemo("euclid.c", (8, 0)), ["euclid.c", "cc.sh"], "cities on both sides of the y axis", "the distance between them is too short")
seed("c13-numbering", "C13", [("tsp_instance_reader.c", "            nodes[i].positionInGraph = i;\n            nodes[i].x = x;", "            nodes[i].positionInGraph = id > 0 ? id - 1 : 0;\n            nodes[i].x = x;")],
    cdemo("tsplib.c", (8, 0)), ["tsplib.c", "cc.sh"], "cities numbered from 0 or not consecutively", "roads are attached to the wrong cities")
seed("c14-probable-tour", "C14", [(BB, "bool better_prob = prob_nn_subProblem.value < nn_subProblem.value;", "bool better_prob = prob_nn_subProblem.value - nn_subProblem.value < (prob_nn_subProblem.prob > nn_subProblem.prob ? EPSILON : 0);")],
    cdemo("greedy.c", (5, 1)), ["greedy.c", "cc.sh"], "hybrid mode, the two greedy tours of a start differ by less than the tolerance", "the longer tour becomes the incumbent")
seed("c15-triangle", "C15", [(BB, "    if (pathLength[toNode] > 2) {", "    if (pathLength[toNode] > 3) {")],
    cdemo("tri.c", (5, 0)), ["tri.c", "cc.sh"], "an instance of three cities", "its only tour is not recognised")
seed("c16-last-city", "C16", [(BB, "    for (unsigned short i = 0; i < problem->graph.num_nodes; i++) {\n        SubProblem currentCandidate;", "    for (unsigned short i = 0; i < problem->graph.num_nodes - (problem->graph.num_nodes < MAX_VERTEX_NUM); i++) {\n        SubProblem currentCandidate;")],
    cdemo("special.c", (8, 0)), ["special.c", "cc.sh"], "an instance smaller than the capacity whose last city has the greatest bound", "that city is never considered")
seed("c17-probability-first", "C17", [(BB, "                ( (b->value > a->value) && (a->prob - b->prob) >= BETTER_PROB);", "                ( (b->value >= a->value - EPSILON) && (a->prob - b->prob) >= BETTER_PROB);")],
    cdemo("order.c", (5, 1)), ["order.c", "cc.sh"], "hybrid mode, a more probable node whose bound is slightly worse", "it is opened first although its bound is not better")
seed("c18-stale-prev", "C18", [("data_structures/doubly_linked_list/list_functions.c", "            list->head = list->head->next;\n            list->head->prev = NULL;", "            list->head = list->head->next;\n            if (list->head->next != NULL) {\n                list->head->prev = NULL;\n            }")],
    cdemo("list.c", (5, 0)), ["list.c", "cc.sh"], "the first of two elements is deleted, later the remaining one is deleted from the end", "the emptied list keeps a pointer to freed memory")
seed("c19-overflow", "C19", [(BB, "return ((clock() - problem->start) / CLOCKS_PER_SEC) > TIME_LIMIT_SECONDS;", "int elapsed = (int) (clock() - problem->start);\n    return (elapsed / CLOCKS_PER_SEC) > TIME_LIMIT_SECONDS;")],
    cdemo("limit.c", (8, 0)), ["limit.c", "cc.sh"], "more than 2147 s of CPU time pass between two checks", "the limit is not noticed and the run is not reported as interrupted")
seed("c20-first-road", "C20", [(BB, "            if (src == subProblem->cycleEdges[subProblem->num_edges_in_cycle - 1].dest ||\n                src == subProblem->cycleEdges[subProblem->num_edges_in_cycle - 1].src){", "            if (src == subProblem->cycleEdges[subProblem->num_edges_in_cycle - 1].dest){")],
    cdemo("report.c", (8, 0)), ["report.c", "cc.sh"], "first and last road of the tour are both recorded from the same city", "the printed roads do not form a walk")
seed("c21-levels-kept", "C21", [(BB, "        problem->totTreeLevels = 1;", "        problem->totTreeLevels = problem->totTreeLevels > 1 ? problem->totTreeLevels : 1;")],
    cdemo("twice.c", (10, 0)), ["twice.c", "cc.sh"], "a second instance solved in the same Problem after one that needed a deeper tree", "the reported number of levels is the first run's")
seed("c22-replacement-array", "C22", [(BB, "double replacement_costs [MAX_VERTEX_NUM - 2];", "double replacement_costs [MAX_VERTEX_NUM - 3];"), (BB, "    for (int i = 0; i < MAX_VERTEX_NUM - 2; i++){\n        replacement_costs[i] = INFINITE;", "    for (int i = 0; i < MAX_VERTEX_NUM - 3; i++){\n        replacement_costs[i] = INFINITE;")],
    cdemo("opt.c", (8, 0), flags="-fsanitize=address").replace('"$T/a0" "$T"', 'ASAN_OPTIONS=detect_leaks=0 "$T/a0" r 8 300'), ["opt.c", "cc.sh"], "an instance as large as the capacity with a node that stays open after bounding", "the last entry of the replacement costs lies outside the array")
seed("c07-last-road", "C07", [("algorithms/kruskal.c", "while (num_edges_inG < graph->num_edges && num", "while (num_edges_inG + 1 < graph->num_edges && num")],
    cdemo("mst.c", (6, 0), (6, 1)), ["mst.c", "cc.sh"], "an instance whose longest road is the only one that joins two parts of it", "Kruskal finds no spanning tree although there is one")
def pdemo(name): return 'exec timeout 200 python3-vt -W ignore "$(dirname "$0")/%s.py"\n' % name
def pseed(id, prop, edits, needs, breaks): seed(id, prop, edits, pdemo("d" + prop[1:]), ["d%s.py" % prop[1:], "pyd.py"] + (["d29.py"] if prop == "C34" else []), needs, breaks)
NNM, HS, GU, RD, AN = "graph-convnet-tsp/main.py", "HybridSolver.py", "graph-convnet-tsp/utils/graph_utils.py", "graph-convnet-tsp/utils/google_tsp_reader.py", "src/HybridSolver/results/AdjacencyMatrix/analyzer.py"
pseed("c23-short-numerals", "C23", [(NNM, "axis=1).astype('U')", "axis=1).astype('U9')")], "a distance or probability whose shortest numeral is longer than nine characters, such as one below 0.0001", "numerals lose their end, with an exponent the number is quite another")
pseed("c24-copies-cycle", "C24", [(NNM, "rr_index = (rr_index + 1) % num_nodes", "rr_index = (rr_index + 1) % (num_nodes if i + 1 < num_nodes else num_nodes - 1)")], "a network more than twice as large as the instance", "from the second round on the dummy cities stand for other cities than the matrix writer assumes")
pseed("c24-order-of-medoids", "C24", [(NNM, "np.array(node) - np.array(nodes_coord[i])", "np.array(node) - np.array((nodes_coord if i >= model_size else graph)[i])")], "an instance larger than the network whose medoids are not its first cities", "added cities get the distances to other cities")
pseed("c25-wraps", "C25", [(HS, "str_graph = lines[instance - 1]", "str_graph = lines[(instance - 1) % len(lines)]"), (HS, "len(lines) < instance - 1:", "len(lines) == 0:")], "a range that ends beyond the last line of the instance file", "earlier instances are solved again under a wrong number, without an error")
pseed("c26-same-place", "C26", [("src/CplexSolver/Data/TSPLIB/converter_tsp_to_dat.py", "                if len(values) == 3:\n", "                if len(values) == 3 and (float(values[1]), float(values[2])) not in nodes_coord[-1:]:\n")], "two consecutive cities at the same place", "one of them is missing in the data file")
pseed("c27-closing-road", "C27", [(GU, "    tour_len += W_values[j][nodes[0]]\n", "    tour_len += W_values[j][0]\n")], "a tour that does not begin with city 0", "the closing road leads to the wrong city")
pseed("c28-target-of-last", "C28", [(RD, "edges_target[j][tour_nodes[0]] = 1", "edges_target[j][0] = 1")], "a tour that does not begin with the first city", "the target matrix has a wrong road and is not symmetric")
pseed("c29-interval", "C29", [(AN, "np.std(values_cla) * 1.96 / np.sqrt(len(values_cla))", "np.std(values_cla) * 1.96 / np.sqrt(len(stats_cla))")], "instances that only one of the two solvers resolved", "the interval of the classic mean is too narrow")
pseed("c34-overhead", "C34", [(AN, "solutions.append((cost, time_overhead + time_to_obtain))", "solutions.append((cost, max(time_overhead, time_to_obtain)))")], "a report without any improvement line", "the time of its solution does not count the time spent before the search")
pseed("c30-last-line", "C30", [(NNM, "    instance = lines[0]\n", "    instance = lines[-1]\n")], "a file with more than one instance", "the probabilities are those of another instance")
pseed("c34-not-yet", "C34", [(AN, "                if last_time <= time:\n                    sol_two_count += 1", "                if last_time < time or time == times[-1]:\n                    sol_two_count += 1")], "an instance solved in classic mode at a time other than the last one", "it counts as solved only from the next time on")
pseed("c35-place-of-pnn", "C35", [(AN, 'table.replace("perc_pnn_" + str(j), hyb_perc_pnn)', 'table.replace("perc_pnn_" + str(perc_id), hyb_perc_pnn)')], "the second or third size of a table", "the share closed by the probable nearest neighbour is missing or in another column")
seed("c33-first-cities", "C33", [("src/CplexSolver/TSPmtz.mod", "forall (i in cities : i >=2)", "forall (i in cities : i >=3)")], 'exec python3-vt "$(dirname "$0")/mtz.py"\n', ["mtz.py", "opl.py"], "four or more cities", "two subtours are accepted as a solution")
def tseed(id, prop, edits, needs, breaks): seed(id, prop, edits, pdemo("d" + prop[1:]), ["d%s.py" % prop[1:], "mt.py", "../../pyse/tens.py", "../../pyse/engine.py", "../../pyse/base.py"] + (["dnet.py"] if prop in ("C32", "C36") else []), needs, breaks)
BS, MU, GL, GM, PU, DT = ("graph-convnet-tsp/" + x for x in ("utils/beamsearch.py", "utils/model_utils.py", "models/gcn_layers.py", "models/gcn_model.py", "utils/plot_utils.py", "data/"))
tseed("c31-first-road", "C31", [(BS, "if len(self.prev_Ks) > 0:", "if len(self.prev_Ks) > 1:")], "a beam of more than one place", "the probability of the first road is forgotten, so that the tour is not the most probable one")
tseed("c31-shorter-twice", "C31", [(MU, "                shortest_lens[idx] = hyp_len\n", "                shortest_lens[idx] = max(hyp_len, tour_nodes_to_tour_len(shortest_tours[0].cpu().numpy(), x_edges_values[0].cpu().numpy())) if idx else shortest_lens[idx]\n")], "three tours in the beam of which a later one is longer than the shortest but shorter than the most probable", "the tour returned in shortest mode is not the shortest")
tseed("c32-one-end", "C32", [(GL, "Wx = Vx.unsqueeze(1)  #", "Wx = Vx.unsqueeze(2)  #")], "comparing the scores of both directions of a road", "a road has different scores in its two directions")
tseed("c36-gates-of-arrivals", "C36", [(GL, "(1e-20 + torch.sum(edge_gate, dim=2))", "(1e-20 + torch.sum(edge_gate, dim=1))")], "mean aggregation and gates that differ between the directions of a road", "the gates are normalised over the wrong city")
tseed("c37-all-together", "C37", [(MU, "acc = acc.sum().to(dtype=torch.float).item() / acc.numel()", "acc = (acc * mask.sum(dim=1).sum(dim=1).to(dtype=torch.float)).sum().item() / mask.sum().item()")], "a batch whose instances have different numbers of roads", "the mean is weighted by the number of roads")
pseed("c38-split-at-zero", "C38", [(DT + "split_train_val.py", "filedata[opts.val_size:]", "filedata[opts.val_size or 1:]")], "a split without validation instances", "the first instance is in neither part")
pseed("c38-closes-at-first", "C38", [(DT + "generate_tsp_concorde.py", "str(solution.tour[0]+1)", "str(1)")], "a tour found that does not begin with the first city", "the tour of the line is not closed")
tseed("c39-other-direction", "C39", [(PU, "edge_preds.append(W[r][c])", "edge_preds.append(W[c][r])")], "a road with different probabilities in its two directions", "roads are coloured by the probability of the other direction")
pseed("c40-known-only", "C40", [("graph-convnet-tsp/config.py", "config.update(Settings(json.load(open(filepath))))", "config.update({k: v for k, v in json.load(open(filepath)).items() if v})")], "a file with a parameter of value 0", "the parameter has the default's value")

def lseed(id, prop, edits, mode, hybrid, needs, breaks): seed(id, prop, edits, cdemo("large.c", (260, hybrid), args=mode).replace('"$T/a0" "$T"', 'ulimit -s unlimited; "$T/a0" "$T" %s' % mode), ["large.c", "cc.sh"], needs, breaks)
lseed("c10-middle-of-many", "C10", [("algorithms/kruskal.c", "unsigned short middle = (first + last) / 2;", "short both = first + last;\n    unsigned short middle = both / 2;")], "sort", 0, "more than 16384 roads to sort, that is more than 181 cities", "roads outside the array are swapped into the order")
lseed("c07-narrow-matrix", "C07", [("data_structures/mst.h", "    short edges_matrix [", "    signed char edges_matrix [")], "mst", 1, "a spanning tree of more than 129 cities", "the adjacency matrix of the tree no longer designates its roads")
lseed("c12-many-roads", "C12", [("tsp_instance_reader.c", "    unsigned short i = 0;\n    unsigned short z = 0;", "    unsigned short i = 0;\n    short z = 0;")], "csv", 1, "a file with more than 32767 roads", "roads from the 32769th on are written before the list of roads")
lseed("c20-far-last-city", "C20", [("algorithms/branch_and_bound.c", "    unsigned short last_dest = 0;", "    unsigned char last_dest = 0;")], "report", 0, "a tour over more than 256 cities", "the printed walk is broken after a city beyond the 256th")
lseed("c04-far-city", "C04", [("algorithms/branch_and_bound.c", "        short nothing_nodes[MAX_VERTEX_NUM];", "        signed char nothing_nodes[MAX_VERTEX_NUM];")], "branch", 0, "an instance of more than 128 cities with a city whose remaining roads are decided by inference", "roads of other cities are decided instead, and memory outside the matrix is written")
lseed("c15-long-cycle", "C15", [("algorithms/branch_and_bound.c", "    unsigned short pathLength[num_nodes];", "    unsigned char pathLength[num_nodes];")], "cycle", 0, "a cycle of 256 to 258 cities", "the cycle is not recognised, so a tour of that many cities never is")
lseed("c16-late-city", "C16", [("algorithms/branch_and_bound.c", "    unsigned short best_candidate = 0;", "    unsigned char best_candidate = 0;")], "special", 0, "an instance of more than 256 cities whose most remote city is one of the last", "another city becomes the special one, so the initial bound is weaker than documented")
def l2seed(id, prop, edits, mode, needs, breaks): seed(id, prop, edits, cdemo("large2.c", (300 if mode in ("merge", "heap") else 3, 0)).replace('"$T/a0" "$T"', '"$T/a0" "$T" %s' % mode), ["large2.c", "cc.sh"], needs, breaks)
l2seed("c09-many-sets", "C09", [("data_structures/mfset.h", "    unsigned short num_in_forest;", "    unsigned char num_in_forest;")], "merge", "more than 256 elements, two of which have numbers that differ by 256", "their sets are not merged")
l2seed("c18-long-nodes", "C18", [("data_structures/b_and_b_data.h", "    size_t size; ///< The size of the list.", "    unsigned char size; ///< The size of the list.")], "nodes", "more than 255 open nodes in the list", "the number of nodes wraps, so that nodes beyond it are out of reach")
l2seed("c18-long-list", "C18", [("data_structures/doubly_linked_list/linked_list.h", "    size_t size; ///< The current size of the List.", "    unsigned char size; ///< The current size of the List.")], "list", "more than 255 elements", "elements are out of reach")
l2seed("c08-many-trees", "C08", [("data_structures/fibonacci_heap.h", "    unsigned short num_trees;", "    unsigned char num_trees;")], "heap", "more than 255 elements before the first extraction", "elements are lost")
seed("c03-stale-order", "C03", [(BB, "                        used_graph->orderedEdges = false;\n", "")], '. "$(dirname "$0")/cc.sh"\ncc1 8 0 a0 opt.c "-include $(dirname "$0")/kr.h"\n"$T/a0" r 8 400 || exit 1\n', ["opt.c", "cc.sh", "kr.h"], "the solver configured with Kruskal's algorithm (PRIM 0) and an instance on which the subgradient changes the order of the roads", "the relaxation is no longer minimal, nodes are closed that contain the best tour")
lseed("c06-many-mandatory", "C06", [("data_structures/b_and_b_data.h", "    unsigned short num_mandatory_edges;", "    unsigned char num_mandatory_edges;")], "chain", 0, "a node with more than 255 mandatory roads", "the relaxation leaves mandatory roads out")
