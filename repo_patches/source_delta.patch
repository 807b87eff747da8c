From 216aa568d291bbda2f8519d34802d8b7823bfa7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:41 +0000
Subject: [PATCH 01/26] fix: sorting a graph without roads read outside the
 edge array

---
 src/HybridSolver/main/algorithms/kruskal.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/algorithms/kruskal.c b/src/HybridSolver/main/algorithms/kruskal.c
index 69aa710..5c66525 100644
--- a/src/HybridSolver/main/algorithms/kruskal.c
+++ b/src/HybridSolver/main/algorithms/kruskal.c
@@ -123,7 +123,9 @@ static void quick_sort(Graph * graph, unsigned short first, unsigned short last)
 void wrap_quick_sort(Graph * graph) {
     if (!graph->orderedEdges) {
         graph->orderedEdges = true;
-        quick_sort(graph, 0, graph->num_edges - 1);
+        if (graph->num_edges > 1) {
+            quick_sort(graph, 0, graph->num_edges - 1);
+        }
     }
 }
 
-- 
2.43.0


From ecf129d2899c63dbf925f5916bdbc35ec684310c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:02 +0000
Subject: [PATCH 02/26] fix: variable_fixing read 1-tree edges that do not
 exist on instances smaller than the capacity

---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index 16e27ff..48d3b31 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -469,7 +469,7 @@ int variable_fixing(SubProblem *currentSubProb){
     }
 
 
-    for (int i = 0; i < MAX_VERTEX_NUM; i++){
+    for (int i = 0; i < currentSubProb->oneTree.num_edges; i++){
         Edge edge_1tree = currentSubProb->oneTree.edges[i];
         double edge_1tree_weight = problem->graph.edges_matrix[edge_1tree.src][edge_1tree.dest].weight;
 
-- 
2.43.0


From 3af9d4670815027e6b50123186967e90344d08e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:04 +0000
Subject: [PATCH 03/26] fix: constrained_prim preferred very light edges to
 mandatory ones

---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index 48d3b31..8a55718 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -590,9 +590,9 @@ void constrained_prim(Graph * graph, SubProblem * subProblem, unsigned short can
 
         if(src != candidateId && dest != candidateId) {
 
-            graph_copy.edges_matrix[src][dest].weight = -((double) problem->graph.num_nodes);
-            graph_copy.edges_matrix[dest][src].weight = -((double) problem->graph.num_nodes);
-            graph_copy.edges[graph->edges_matrix[src][dest].positionInGraph].weight = -((double) problem->graph.num_nodes);
+            graph_copy.edges_matrix[src][dest].weight = -INFINITE;
+            graph_copy.edges_matrix[dest][src].weight = -INFINITE;
+            graph_copy.edges[graph->edges_matrix[src][dest].positionInGraph].weight = -INFINITE;
         }
     }
 
-- 
2.43.0


From 4350f0009f10658ddd3ef1424d1d91febfb4d73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:06 +0000
Subject: [PATCH 04/26] fix: branch recorded an edge twice when variable_fixing
 had already decided it

---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index 8a55718..e54a15b 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -275,7 +275,15 @@ void branch(SubProblemsList *openSubProblems, SubProblem *currentSubProblem){
         child.edge_to_branch = -1;
         copy_constraints(&child, currentSubProblem);
 
-        if(HYBRID) {
+        // the edge may already have been decided by variable_fixing: then only one child is left
+        ConstraintType decided = child.constraints[to_branch.src][to_branch.dest];
+        if (decided != NOTHING) {
+            ConstraintType wanted = (i == 0) == (!HYBRID || prob_edge >= PROB_BRANCH) ? MANDATORY : FORBIDDEN;
+            if (decided != wanted) {
+                continue;
+            }
+        }
+        else if(HYBRID) {
 
             if (prob_edge >= PROB_BRANCH) {
                 if (i == 0) {
-- 
2.43.0


From c4104e550ade8cd7004113d6d7d6d2e254bab72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:21 +0000
Subject: [PATCH 05/26] fix: infer_constraints, branch and variable_fixing
 wrote past the list of mandatory edges

Constraints that force more edges than the instance has nodes (no tour respects
them) overflowed mandatoryEdges[MAX_VERTEX_NUM].
---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index e54a15b..4d4822e 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -216,6 +216,10 @@ bool infer_constraints(SubProblem * subProblem){
         } else if (MAX_VERTEX_NUM - num_forbidden_node == 2) {
 
             if (num_nothing_node + num_mandatory_node == 2) {
+                // no tour has more mandatory edges than nodes
+                if (subProblem->num_mandatory_edges + num_nothing_node > MAX_VERTEX_NUM) {
+                    return false;
+                }
                 for (short j = 0; j < num_nothing_node; j++) {
                     subProblem->constraints[i][nothing_nodes[j]] = MANDATORY;
                     subProblem->constraints[nothing_nodes[j]][i] = MANDATORY;
@@ -277,8 +281,12 @@ void branch(SubProblemsList *openSubProblems, SubProblem *currentSubProblem){
 
         // the edge may already have been decided by variable_fixing: then only one child is left
         ConstraintType decided = child.constraints[to_branch.src][to_branch.dest];
+        ConstraintType wanted = (i == 0) == (!HYBRID || prob_edge >= PROB_BRANCH) ? MANDATORY : FORBIDDEN;
+        if (decided == NOTHING && wanted == MANDATORY && child.num_mandatory_edges == MAX_VERTEX_NUM) {
+            // no tour has more mandatory edges than nodes
+            continue;
+        }
         if (decided != NOTHING) {
-            ConstraintType wanted = (i == 0) == (!HYBRID || prob_edge >= PROB_BRANCH) ? MANDATORY : FORBIDDEN;
             if (decided != wanted) {
                 continue;
             }
@@ -481,7 +489,8 @@ int variable_fixing(SubProblem *currentSubProb){
         Edge edge_1tree = currentSubProb->oneTree.edges[i];
         double edge_1tree_weight = problem->graph.edges_matrix[edge_1tree.src][edge_1tree.dest].weight;
 
-        if(currentSubProb->constraints[edge_1tree.src][edge_1tree.dest] == NOTHING) {
+        if(currentSubProb->constraints[edge_1tree.src][edge_1tree.dest] == NOTHING &&
+           currentSubProb->num_mandatory_edges < MAX_VERTEX_NUM) {
             if (edge_1tree.src != problem->candidateNodeId && edge_1tree.dest != problem->candidateNodeId) {
                 if (currentSubProb->oneTree.cost + replacement_costs[i] - edge_1tree_weight >= problem->bestValue) {
                     currentSubProb->constraints[edge_1tree.src][edge_1tree.dest] = MANDATORY;
-- 
2.43.0


From 88c210632cb2a2c3820ab03e6542da41a4add87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:40 +0000
Subject: [PATCH 06/26] fix: mst_to_one_tree wrote past its arrays on a third
 mandatory edge of the candidate node

---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index 4d4822e..c6b4367 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -100,6 +100,10 @@ BBNodeType mst_to_one_tree(SubProblem *currentSubproblem, Graph *graph) {
 
         if (currentSubproblem->num_mandatory_edges > 0 &&
                 currentSubproblem->constraints[src][dest] == MANDATORY) {
+            if (toAdd == 2) {
+                // a third mandatory edge of the candidate node
+                return CLOSED_UNFEASIBLE;
+            }
             bestEdgesWeight[toAdd] = graph->edges_matrix[src][dest].weight;
             bestEdgesPos[toAdd] = graph->edges_matrix[src][dest].positionInGraph;
             toAdd++;
-- 
2.43.0


From 57a9a0cfd47846b3ef488065457606cd61391597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:29 +0000
Subject: [PATCH 07/26] fix: on incomplete instances a stuck greedy
 construction became the incumbent

nearest_prob_neighbour added a road from the stuck node to itself (or a missing
closing road) and reported the result as a tour, which also pruned the search.
Only complete constructions are compared with the incumbent, and the incumbent
starts out as 'no solution' instead of undefined values.
---
 .../main/algorithms/branch_and_bound.c        | 48 +++++++++++++++++--
 1 file changed, 44 insertions(+), 4 deletions(-)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index c6b4367..090d8f7 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -862,20 +862,36 @@ bool time_limit_reached(void) {
 }
 
 
+static bool are_neighbours(unsigned short node, unsigned short other) {
+    for (unsigned short i = 0; i < problem->graph.nodes[node].num_neighbours; i++) {
+        if (problem->graph.nodes[node].neighbours[i] == other) {
+            return true;
+        }
+    }
+    return false;
+}
+
+
 void nearest_prob_neighbour(unsigned short start_node) {
     SubProblem nn_subProblem;
     nn_subProblem.num_forbidden_edges = 0;
     nn_subProblem.num_mandatory_edges = 0;
     nn_subProblem.num_edges_in_cycle = 0;
+    nn_subProblem.edge_to_branch = -1;
     nn_subProblem.timeToReach = ((float) (clock() - problem->start)) / CLOCKS_PER_SEC;
     create_mst(&nn_subProblem.oneTree, problem->graph.nodes, problem->graph.num_nodes);
     unsigned short current_node = start_node;
     bool visited[MAX_VERTEX_NUM] = {false};
     ConstrainedEdge cycleEdge;
+    bool complete = true;
 
-    for (unsigned short visited_count = 0; visited_count < problem->graph.num_nodes; visited_count++) {
+    for (unsigned short visited_count = 0; complete && visited_count < problem->graph.num_nodes; visited_count++) {
 
         if (visited_count == problem->graph.num_nodes - 1) {
+            if (!are_neighbours(current_node, start_node)) {
+                complete = false;
+                continue;
+            }
             add_edge(&nn_subProblem.oneTree, &problem->graph.edges_matrix[current_node][start_node]);
             cycleEdge.src = current_node;
             cycleEdge.dest = start_node;
@@ -893,6 +909,10 @@ void nearest_prob_neighbour(unsigned short start_node) {
                     best_neighbour = problem->graph.nodes[current_node].neighbours[i];
                 }
             }
+            if (best_neighbour == current_node) {
+                complete = false;
+                continue;
+            }
             add_edge(&nn_subProblem.oneTree, &problem->graph.edges_matrix[current_node][best_neighbour]);
             cycleEdge.src = current_node;
             cycleEdge.dest = best_neighbour;
@@ -902,7 +922,8 @@ void nearest_prob_neighbour(unsigned short start_node) {
             current_node = best_neighbour;
         }
     }
-    nn_subProblem.value = nn_subProblem.oneTree.cost;
+    // if the construction got stuck there is no tour to compare with the incumbent
+    nn_subProblem.value = complete ? nn_subProblem.oneTree.cost : INFINITE;
     nn_subProblem.oneTree.isValid = true;
     nn_subProblem.type = CLOSED_NN;
     nn_subProblem.prob = nn_subProblem.oneTree.prob;
@@ -912,13 +933,20 @@ void nearest_prob_neighbour(unsigned short start_node) {
         prob_nn_subProblem.num_forbidden_edges = 0;
         prob_nn_subProblem.num_mandatory_edges = 0;
         prob_nn_subProblem.num_edges_in_cycle = 0;
+        prob_nn_subProblem.edge_to_branch = -1;
+        prob_nn_subProblem.timeToReach = ((float) (clock() - problem->start)) / CLOCKS_PER_SEC;
         create_mst(&prob_nn_subProblem.oneTree, problem->graph.nodes, problem->graph.num_nodes);
         bool prob_visited[MAX_VERTEX_NUM] = {false};
         current_node = start_node;
+        bool prob_complete = true;
 
-        for (unsigned short visited_count = 0; visited_count < problem->graph.num_nodes; visited_count++) {
+        for (unsigned short visited_count = 0; prob_complete && visited_count < problem->graph.num_nodes; visited_count++) {
 
             if (visited_count == problem->graph.num_nodes - 1) {
+                if (!are_neighbours(current_node, start_node)) {
+                    prob_complete = false;
+                    continue;
+                }
                 add_edge(&prob_nn_subProblem.oneTree, &problem->graph.edges_matrix[current_node][start_node]);
                 cycleEdge.src = current_node;
                 cycleEdge.dest = start_node;
@@ -936,6 +964,10 @@ void nearest_prob_neighbour(unsigned short start_node) {
                         best_neighbour = problem->graph.nodes[current_node].neighbours[i];
                     }
                 }
+                if (best_neighbour == current_node) {
+                    prob_complete = false;
+                    continue;
+                }
                 add_edge(&prob_nn_subProblem.oneTree, &problem->graph.edges_matrix[current_node][best_neighbour]);
                 cycleEdge.src = current_node;
                 cycleEdge.dest = best_neighbour;
@@ -945,7 +977,7 @@ void nearest_prob_neighbour(unsigned short start_node) {
                 current_node = best_neighbour;
             }
         }
-        prob_nn_subProblem.value = prob_nn_subProblem.oneTree.cost;
+        prob_nn_subProblem.value = prob_complete ? prob_nn_subProblem.oneTree.cost : INFINITE;
         prob_nn_subProblem.oneTree.isValid = true;
         prob_nn_subProblem.type = CLOSED_NN_HYBRID;
         prob_nn_subProblem.prob = prob_nn_subProblem.oneTree.prob;
@@ -1038,6 +1070,14 @@ void branch_and_bound(Problem *current_problem) {
 
         problem->start = clock();
         problem->bestValue = INFINITE;
+        problem->bestSolution.type = CLOSED_UNFEASIBLE;
+        problem->bestSolution.value = INFINITE;
+        problem->bestSolution.prob = 0;
+        problem->bestSolution.timeToReach = 0;
+        problem->bestSolution.edge_to_branch = -1;
+        problem->bestSolution.num_edges_in_cycle = 0;
+        problem->bestSolution.num_forbidden_edges = 0;
+        problem->bestSolution.num_mandatory_edges = 0;
         problem->candidateNodeId = find_candidate_node();
         problem->bestSolution.id = 0;
         problem->bestSolution.treeLevel = 0;
-- 
2.43.0


From f0ba3abf92b0867ef39b3a500f4b062b22200a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:54 +0000
Subject: [PATCH 08/26] fix: solutions found as a 1-tree were printed as
 CLOSED_SUBGRADIENT

The result analyser counts them under the label CLOSED_1TREE.
---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index 090d8f7..11762c6 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -1144,6 +1144,8 @@ void print_subProblem(const SubProblem *subProblem) {
         type = "CLOSED_NEAREST_NEIGHBOR";
     } else if (subProblem->type == CLOSED_NN_HYBRID) {
         type = "CLOSED_NEAREST_NEIGHBOR_HYBRID";
+    } else if (subProblem->type == CLOSED_1TREE) {
+        type = "CLOSED_1TREE";
     } else {
         type = "CLOSED_SUBGRADIENT";
     }
-- 
2.43.0


From 75b153a7fcf1a270a010aa1fcce9f92a86f396e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:29 +0000
Subject: [PATCH 09/26] fix: printing a graph or a tree overflowed its text
 buffers

---
 src/HybridSolver/main/data_structures/graph.c | 12 +++-------
 src/HybridSolver/main/data_structures/mst.c   | 24 +++++--------------
 2 files changed, 9 insertions(+), 27 deletions(-)

diff --git a/src/HybridSolver/main/data_structures/graph.c b/src/HybridSolver/main/data_structures/graph.c
index 26da3df..ce7f64b 100644
--- a/src/HybridSolver/main/data_structures/graph.c
+++ b/src/HybridSolver/main/data_structures/graph.c
@@ -113,19 +113,13 @@ void print_graph(const Graph *G) {
     printf("\nCost: %lf\n", G->cost);
     printf("\nEdges: %i\n", G->num_edges);
 
-    double dim = (log(G->num_nodes) / log(10) + 1) * 2 + 7;
     for (unsigned short j = 0; j < G->num_edges; j++) {
-        char edge_print [(int) dim] ;
-        char edge_print_dest [(int) (dim-7)/2] ;
         Edge curr = G->edges[j];
-        sprintf(edge_print, "%i", curr.src);
-        strcat(edge_print, " <--> ");
-        sprintf(edge_print_dest, "%i", curr.dest);
-        strcat(edge_print, edge_print_dest);
 
-        printf("Edge%i:\t%s\tweight = %.*f\tprob = %.*f\n",
+        printf("Edge%i:\t%i <--> %i\tweight = %.*f\tprob = %.*f\n",
                curr.symbol,
-               edge_print,
+               curr.src,
+               curr.dest,
                DBL_DIG-1,
                curr.weight,
                DBL_DIG-1,
diff --git a/src/HybridSolver/main/data_structures/mst.c b/src/HybridSolver/main/data_structures/mst.c
index 3e71278..c07bac7 100644
--- a/src/HybridSolver/main/data_structures/mst.c
+++ b/src/HybridSolver/main/data_structures/mst.c
@@ -70,18 +70,12 @@ void add_edge(MST * tree, const Edge * edge){
 void print_mst(const MST * tree){
     printf("\nMST or 1-Tree with cost: %lf and validity = %s\n", tree->cost, tree->isValid ? "TRUE" : "FALSE");
 
-    double dim = (log(tree->num_nodes) / log(10) + 1) * 2 + 7;
     for (unsigned short i = 0; i < tree->num_edges; i++) {
-        char edge_print [(int) dim] ;
-        char edge_print_dest [(int) (dim-7)/2] ;
         const Edge * curr = &tree->edges[i];
-        sprintf(edge_print, "%i", curr->src);
-        strcat(edge_print, " <--> ");
-        sprintf(edge_print_dest, "%i", curr->dest);
-        strcat(edge_print, edge_print_dest);
-        printf("Edge%i:\t%s\tweight = %lf\tprob = %lf\n",
+        printf("Edge%i:\t%i <--> %i\tweight = %lf\tprob = %lf\n",
                curr->symbol,
-               edge_print,
+               curr->src,
+               curr->dest,
                curr->weight,
                curr->prob);
     }
@@ -92,18 +86,12 @@ void print_mst(const MST * tree){
 void print_mst_original_weight(const MST * tree, const Graph * graph){
     printf("\nMST or 1-Tree with cost: %f and validity = %s\n", tree->cost, tree->isValid ? "TRUE" : "FALSE");
 
-    double dim = (log(tree->num_nodes) / log(10) + 1) * 2 + 7;
     for (unsigned short i = 0; i < tree->num_edges; i++) {
-        char edge_print [(int) dim] ;
-        char edge_print_dest [(int) (dim-7)/2] ;
         const Edge * curr = &tree->edges[i];
-        sprintf(edge_print, "%i", curr->src);
-        strcat(edge_print, " <--> ");
-        sprintf(edge_print_dest, "%i", curr->dest);
-        strcat(edge_print, edge_print_dest);
-        printf("Edge%i: %s weight = %f prob = %f\n",
+        printf("Edge%i: %i <--> %i weight = %f prob = %f\n",
                curr->symbol,
-               edge_print,
+               curr->src,
+               curr->dest,
                graph->edges_matrix[curr->src][curr->dest].weight,
                curr->prob);
     }
-- 
2.43.0


From cb2dcd59126c5cf626a5a0145a84c0a9c51c09c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:46 +0000
Subject: [PATCH 10/26] fix: reading a matrix larger than the compiled capacity
 wrote outside the graph

Such instances, and rows or entries beyond the number of nodes, are refused.
---
 src/HybridSolver/main/tsp_instance_reader.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/tsp_instance_reader.c b/src/HybridSolver/main/tsp_instance_reader.c
index 99c940b..886ee1d 100644
--- a/src/HybridSolver/main/tsp_instance_reader.c
+++ b/src/HybridSolver/main/tsp_instance_reader.c
@@ -76,6 +76,13 @@ void read_tsp_lib_file(Graph *graph, char *filename) {
 }
 
 
+static void refuse_csv_file(const char *reason, const char *filename) {
+    fprintf(stderr, "%s\n", reason);
+    printf("\nFile: %s\n", filename);
+    exit(1);
+}
+
+
 void read_tsp_csv_file(Graph *graph, char *filename) {
     FILE *fp = fopen(filename, "r");
     if (fp == NULL) {
@@ -93,12 +100,12 @@ void read_tsp_csv_file(Graph *graph, char *filename) {
     char *line = NULL;
     size_t len = 0;
     bool first = true;
+    unsigned short node_num = 0;
     while (getline(&line, &len, fp) != -1) {
         if (first) {
             first = false;
 
             char *token = strtok(line, ";");
-            unsigned short node_num = 0;
             while (token != NULL && strcmp(token, "\n") != 0) {
                 double x = 0, y = 0;
                 int result = sscanf(token, "(%lf, %lf)", &x, &y);
@@ -107,6 +114,9 @@ void read_tsp_csv_file(Graph *graph, char *filename) {
                     printf("\nFile: %s\n", filename);
                     exit(1);
                 }
+                if (node_num == MAX_VERTEX_NUM) {
+                    refuse_csv_file("The instance has more nodes than MAX_VERTEX_NUM.", filename);
+                }
                 graph->nodes[node_num].positionInGraph = node_num;
                 graph->nodes[node_num].x = x;
                 graph->nodes[node_num].y = y;
@@ -119,7 +129,13 @@ void read_tsp_csv_file(Graph *graph, char *filename) {
         }
         char *token = strtok(line, ";");
         unsigned short j = 0;
+        if (i == node_num) {
+            refuse_csv_file("The matrix has more rows than there are nodes.", filename);
+        }
         while (token != NULL && strcmp(token, "\n") != 0) {
+            if (j == node_num) {
+                refuse_csv_file("A row of the matrix has more entries than there are nodes.", filename);
+            }
             if (j != i) {
                 double weight = 0, prob = 0;
 
-- 
2.43.0


From ba304ef379c6c989b36d9e946fef0bcc95329dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:47 +0000
Subject: [PATCH 11/26] fix: read_tsp_lib_file accepted every weight type but a
 file of only EUC_2D lines

The check was inverted, and instances larger than the capacity overflowed the
node array.
---
 src/HybridSolver/main/tsp_instance_reader.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/tsp_instance_reader.c b/src/HybridSolver/main/tsp_instance_reader.c
index 886ee1d..38d5f08 100644
--- a/src/HybridSolver/main/tsp_instance_reader.c
+++ b/src/HybridSolver/main/tsp_instance_reader.c
@@ -28,7 +28,7 @@ void read_tsp_lib_file(Graph *graph, char *filename) {
     bool check_euc_2d = false;
     while (getline(&line, &len, fp) != -1 &&
            strstr(line, "NODE_COORD_SECTION") == NULL) {
-        if (strstr(line, "EDGE_WEIGHT_TYPE : EUC_2D") == NULL) {
+        if (strstr(line, "EDGE_WEIGHT_TYPE") != NULL && strstr(line, "EUC_2D") != NULL) {
             check_euc_2d = true;
         }
     }
@@ -56,6 +56,11 @@ void read_tsp_lib_file(Graph *graph, char *filename) {
                 printf("\nFile: %s\n", filename);
                 exit(1);
             }
+            if (i == MAX_VERTEX_NUM) {
+                fprintf(stderr, "The instance has more nodes than MAX_VERTEX_NUM.\n");
+                printf("\nFile: %s\n", filename);
+                exit(1);
+            }
             nodes[i].positionInGraph = i;
             nodes[i].x = x;
             nodes[i].y = y;
-- 
2.43.0


From 5c1521ba599057af0bff8a89b8974b7c53382473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:04 +0000
Subject: [PATCH 12/26] fix: deleting the last element of a one-element list
 dereferenced NULL

---
 .../data_structures/doubly_linked_list/list_functions.c     | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/data_structures/doubly_linked_list/list_functions.c b/src/HybridSolver/main/data_structures/doubly_linked_list/list_functions.c
index 9f2be7e..5977e3a 100644
--- a/src/HybridSolver/main/data_structures/doubly_linked_list/list_functions.c
+++ b/src/HybridSolver/main/data_structures/doubly_linked_list/list_functions.c
@@ -133,7 +133,11 @@ void delete_list_elem_bottom(List *list) {
     DllElem *oldTail = list->tail;
 
     list->tail = oldTail->prev;
-    list->tail->next = NULL;
+    if (list->tail == NULL) {
+        list->head = NULL;
+    } else {
+        list->tail->next = NULL;
+    }
 
     free(oldTail);
     list->size--;
-- 
2.43.0


From 6ccdc847f1245ca387f9bca3b3ce02ccc8d1614e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:40 +0000
Subject: [PATCH 13/26] fix: consolidating a Fibonacci heap after many cuts
 read outside the degree list

---
 src/HybridSolver/main/data_structures/fibonacci_heap.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/data_structures/fibonacci_heap.c b/src/HybridSolver/main/data_structures/fibonacci_heap.c
index 49a9a9b..7148eff 100644
--- a/src/HybridSolver/main/data_structures/fibonacci_heap.c
+++ b/src/HybridSolver/main/data_structures/fibonacci_heap.c
@@ -113,7 +113,8 @@ void swap_roots(FibonacciHeap * heap, OrdTreeNode * node1, OrdTreeNode * node2){
 
 void consolidate(FibonacciHeap * heap){
 
-    int dimension = ((int) ceil(log(heap->num_nodes) / log(2))) + 2;
+    // after cuts the degree of a root is bounded by log_phi(num_nodes), not by log_2(num_nodes)
+    int dimension = ((int) ceil(log(heap->num_nodes) / log((1 + sqrt(5)) / 2))) + 2;
     OrdTreeNode * degree_list [dimension] ;
 
     for (int i = 0; i < dimension; i++) {
-- 
2.43.0


From b6e1ed7cce359cceb706ecdac52524ed6dbfcb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:05 +0000
Subject: [PATCH 14/26] fix: merging the probabilities of dummy cities compared
 numbers as text

'9e-05' was taken for larger than '0.5'; and with more than one dummy city per
city the index ran out of the row.
---
 src/HybridSolver/main/graph-convnet-tsp/main.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/HybridSolver/main/graph-convnet-tsp/main.py b/src/HybridSolver/main/graph-convnet-tsp/main.py
index 89da50f..cef8ad2 100644
--- a/src/HybridSolver/main/graph-convnet-tsp/main.py
+++ b/src/HybridSolver/main/graph-convnet-tsp/main.py
@@ -148,9 +148,11 @@ def write_adjacency_matrix(graph, y_probs, x_edges_values, nodes_coord, filepath
                 final_arr.append(arr_combined[i * model_size + j])
 
             for j in range(num_nodes, model_size):
-                if i != j-num_nodes:
-                    if arr_combined[i * model_size + j][1] > final_arr[i * num_nodes + j - num_nodes][1]:
-                        final_arr[i * num_nodes + j - num_nodes][1] = arr_combined[i * model_size + j][1]
+                # the dummy cities are copies of the cities of the instance, taken in turn
+                city = (j - num_nodes) % num_nodes
+                if i != city:
+                    if float(arr_combined[i * model_size + j][1]) > float(final_arr[i * num_nodes + city][1]):
+                        final_arr[i * num_nodes + city][1] = arr_combined[i * model_size + j][1]
 
         arr_combined = np.array(final_arr)
 
-- 
2.43.0


From 7ffa77e0e1b6c5689326d969d8f948c09dcc8d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:47 +0000
Subject: [PATCH 15/26] fix: constraint inference forced roads to cities that
 do not exist when the instance is smaller than the capacity

infer_constraints counted the rows and columns beyond the instance as open roads,
so a city with one open road left got a mandatory road to a city that does not
exist, and constrained_prim then indexed the graph with it.
---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index 11762c6..f570187 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -189,15 +189,16 @@ void initialize_matrix(SubProblem *subProblem) {
 bool infer_constraints(SubProblem * subProblem){
 
     bool valid = true;
+    unsigned short num_nodes = problem->graph.num_nodes;
 
-    for (short i = 0; i < MAX_VERTEX_NUM && valid; i++) {
+    for (short i = 0; i < num_nodes && valid; i++) {
 
         short num_nothing_node = 0;
         short num_mandatory_node = 0;
         short num_forbidden_node = 0;
         short nothing_nodes[MAX_VERTEX_NUM];
 
-        for (short j = 0; j < MAX_VERTEX_NUM; j++) {
+        for (short j = 0; j < num_nodes; j++) {
             if (subProblem->constraints[i][j] == NOTHING) {
                 nothing_nodes[num_nothing_node] = j;
                 num_nothing_node++;
@@ -215,13 +216,13 @@ bool infer_constraints(SubProblem * subProblem){
                 subProblem->num_forbidden_edges++;
                 problem->num_fixed_edges++;
             }
-        } else if (num_mandatory_node > 2 || (MAX_VERTEX_NUM - num_forbidden_node < 2)) {
+        } else if (num_mandatory_node > 2 || (num_nodes - num_forbidden_node < 2)) {
             valid = false;
-        } else if (MAX_VERTEX_NUM - num_forbidden_node == 2) {
+        } else if (num_nodes - num_forbidden_node == 2) {
 
             if (num_nothing_node + num_mandatory_node == 2) {
                 // no tour has more mandatory edges than nodes
-                if (subProblem->num_mandatory_edges + num_nothing_node > MAX_VERTEX_NUM) {
+                if (subProblem->num_mandatory_edges + num_nothing_node > num_nodes) {
                     return false;
                 }
                 for (short j = 0; j < num_nothing_node; j++) {
@@ -286,7 +287,7 @@ void branch(SubProblemsList *openSubProblems, SubProblem *currentSubProblem){
         // the edge may already have been decided by variable_fixing: then only one child is left
         ConstraintType decided = child.constraints[to_branch.src][to_branch.dest];
         ConstraintType wanted = (i == 0) == (!HYBRID || prob_edge >= PROB_BRANCH) ? MANDATORY : FORBIDDEN;
-        if (decided == NOTHING && wanted == MANDATORY && child.num_mandatory_edges == MAX_VERTEX_NUM) {
+        if (decided == NOTHING && wanted == MANDATORY && child.num_mandatory_edges == problem->graph.num_nodes) {
             // no tour has more mandatory edges than nodes
             continue;
         }
-- 
2.43.0


From 882dc664abad2b0abfdff3b32e54be93dcfbbcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:53 +0000
Subject: [PATCH 16/26] fix: constraint inference could force roads that an
 incomplete instance does not have

Missing roads were treated as available; a forced missing road then indexed the
graph with an undefined edge. They are forbidden from the start.
---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index f570187..d2cfe39 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -1102,6 +1102,17 @@ void branch_and_bound(Problem *current_problem) {
         subProblem.edge_to_branch = -1;
         initialize_matrix(&subProblem);
 
+        // the roads that the instance does not have are not available to any subproblem
+        for (unsigned short i = 0; i < problem->graph.num_nodes; i++) {
+            for (unsigned short j = i + 1; j < problem->graph.num_nodes; j++) {
+                if (!are_neighbours(i, j)) {
+                    subProblem.constraints[i][j] = FORBIDDEN;
+                    subProblem.constraints[j][i] = FORBIDDEN;
+                    subProblem.num_forbidden_edges++;
+                }
+            }
+        }
+
 
         SubProblemsList subProblems;
         new_SubProblemList(&subProblems);
-- 
2.43.0


From 4a7acf1cb33f0a189396f9fcec3ba8d5e797d8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:13 +0000
Subject: [PATCH 17/26] fix: inserting an element at the end of a list by index
 updates the tail

---
 src/HybridSolver/main/data_structures/b_and_b_data.c             | 1 +
 .../main/data_structures/doubly_linked_list/list_functions.c     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/HybridSolver/main/data_structures/b_and_b_data.c b/src/HybridSolver/main/data_structures/b_and_b_data.c
index e9cf1dc..f120683 100644
--- a/src/HybridSolver/main/data_structures/b_and_b_data.c
+++ b/src/HybridSolver/main/data_structures/b_and_b_data.c
@@ -99,6 +99,7 @@ void add_elem_SubProblemList_index(SubProblemsList *list, SubProblem *element, s
         if (supp == NULL) {
             e = build_list_elem(element, NULL, list->tail);
             list->tail->next = e;
+            list->tail = e;
         } else {
             e = build_list_elem(element, supp, supp->prev);
             e->next->prev = e;
diff --git a/src/HybridSolver/main/data_structures/doubly_linked_list/list_functions.c b/src/HybridSolver/main/data_structures/doubly_linked_list/list_functions.c
index 5977e3a..22c083f 100644
--- a/src/HybridSolver/main/data_structures/doubly_linked_list/list_functions.c
+++ b/src/HybridSolver/main/data_structures/doubly_linked_list/list_functions.c
@@ -110,6 +110,7 @@ void add_elem_list_index(List *list, void *element, size_t index) {
         if (supp == NULL) {
             e = build_dll_elem(element, NULL, list->tail);
             list->tail->next = e;
+            list->tail = e;
         } else {
             e = build_dll_elem(element, supp, supp->prev);
             e->next->prev = e;
-- 
2.43.0


From c98cc2a41c4b4f18ccdd69bbac6b8945f1c1e365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:42 +0000
Subject: [PATCH 18/26] fix: keep the last city of the tour when an instance
 line has no trailing blank

---
 .../main/graph-convnet-tsp/utils/google_tsp_reader.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/graph-convnet-tsp/utils/google_tsp_reader.py b/src/HybridSolver/main/graph-convnet-tsp/utils/google_tsp_reader.py
index bf2343f..df1e298 100644
--- a/src/HybridSolver/main/graph-convnet-tsp/utils/google_tsp_reader.py
+++ b/src/HybridSolver/main/graph-convnet-tsp/utils/google_tsp_reader.py
@@ -80,7 +80,7 @@ class GoogleTSPReader(object):
             
             # Convert tour nodes to required format
             # Don't add final connection for tour/cycle
-            tour_nodes = [int(node) - 1 for node in line[line.index('output') + 1:-1]][:-1]
+            tour_nodes = [int(node) - 1 for node in line[line.index('output') + 1:] if node.strip()][:-1]
             
             # Compute node and edge representation of tour + tour_len
             tour_len = 0
-- 
2.43.0


From db97f7c815b32eb6f4d4c291a2320e3a369876bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:42 +0000
Subject: [PATCH 19/26] fix: analyse a folder in which no instance was resolved

---
 src/HybridSolver/results/AdjacencyMatrix/analyzer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/HybridSolver/results/AdjacencyMatrix/analyzer.py b/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
index ddccab2..47a9bba 100644
--- a/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
+++ b/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
@@ -255,10 +255,10 @@ def read_values(path):
             partial_solutions[inst_id] = (current_resolved, solutions)
 
     all_stats["resolved"] = str(round((resolved / (resolved + len(not_resolved_list)))* 100, 2)) + "%"
-    all_stats["num_closed_nn"] = str(round((num_closed_nn / resolved) * 100, 2)) + "%"
-    all_stats["num_closed_nnHybrid"] = str(round((num_closed_nnHybrid / resolved) * 100, 2)) + "%"
-    all_stats["num_closed_1Tree"] = str(round((num_closed_1Tree / resolved) * 100, 2)) + "%"
-    all_stats["num_closed_subgradient"] = str(round((num_closed_subgradient / resolved) * 100, 2)) + "%"
+    all_stats["num_closed_nn"] = str(round((num_closed_nn / max(resolved, 1)) * 100, 2)) + "%"
+    all_stats["num_closed_nnHybrid"] = str(round((num_closed_nnHybrid / max(resolved, 1)) * 100, 2)) + "%"
+    all_stats["num_closed_1Tree"] = str(round((num_closed_1Tree / max(resolved, 1)) * 100, 2)) + "%"
+    all_stats["num_closed_subgradient"] = str(round((num_closed_subgradient / max(resolved, 1)) * 100, 2)) + "%"
 
     all_stats["total_time"] = dict(sorted(total_time.items()))
     all_stats["time_bb"] = dict(sorted(time_bb.items()))
-- 
2.43.0


From 132dd0abdffafbf6bda40ece5121273fe2fc18e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:42 +0000
Subject: [PATCH 20/26] fix: no improvement is counted while neither solver has
 a solution

---
 src/HybridSolver/results/AdjacencyMatrix/analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HybridSolver/results/AdjacencyMatrix/analyzer.py b/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
index 47a9bba..f781584 100644
--- a/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
+++ b/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
@@ -64,7 +64,7 @@ def improvement_profile(hyb_solutions, cla_solutions, num_nodes, profiles_path):
             if not abs(sol_one[key] - sol_two[key]) < ub:
                 if sol_one[key] < sol_two[key]:
                     one_count += 1
-                else:
+                elif sol_two[key] < sol_one[key]:
                     two_count += 1
 
         points_one.append(one_count / len(sol_one))
-- 
2.43.0


From 91d1de704dacbd725f229a36b87ec6df28d56f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:42 +0000
Subject: [PATCH 21/26] fix: write \textbf and not a tab before a classic mean
 that is better

---
 src/HybridSolver/results/AdjacencyMatrix/analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HybridSolver/results/AdjacencyMatrix/analyzer.py b/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
index f781584..780af3c 100644
--- a/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
+++ b/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
@@ -403,7 +403,7 @@ def modify_string(old_tab, line, name, j):
         if p_val < 0.05:
             old_tab = old_tab.replace(name + "_" + str(j),  "\\underline{\\textbf{" + str(cla_m) + "}}")
         else:
-            old_tab = old_tab.replace(name + "_" + str(j),  "\textbf{" + str(cla_m) + "}")
+            old_tab = old_tab.replace(name + "_" + str(j),  "\\textbf{" + str(cla_m) + "}")
 
         old_tab = old_tab.replace("std_" + name + "_" + str(j + 1), "\stdf{" + str(hyb_std) + "}")
         old_tab = old_tab.replace(name + "_" + str(j + 1),  str(hyb_m))
-- 
2.43.0


From 31f8606e38d67a84e0f39eeb7d6fd1e7fe5f8f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:02 +0000
Subject: [PATCH 22/26] fix: HybridSolver.py uses errno without importing it

---
 src/HybridSolver/main/HybridSolver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/HybridSolver/main/HybridSolver.py b/src/HybridSolver/main/HybridSolver.py
index 8351373..ab5e93f 100644
--- a/src/HybridSolver/main/HybridSolver.py
+++ b/src/HybridSolver/main/HybridSolver.py
@@ -11,6 +11,7 @@
 
     Repo: https://github.com/LorenzoSciandra/GraphConvolutionalBranchandBound
 """
+import errno
 import subprocess
 import argparse
 import pprint as pp
-- 
2.43.0


From 22f1176e4aebdf6bd5f580469c179e7b799c5d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:40 +0000
Subject: [PATCH 23/26] fix: beam search revisits cities joined by roads of
 probability 1

---
 src/HybridSolver/main/graph-convnet-tsp/utils/model_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/HybridSolver/main/graph-convnet-tsp/utils/model_utils.py b/src/HybridSolver/main/graph-convnet-tsp/utils/model_utils.py
index 491b630..c2c3f05 100644
--- a/src/HybridSolver/main/graph-convnet-tsp/utils/model_utils.py
+++ b/src/HybridSolver/main/graph-convnet-tsp/utils/model_utils.py
@@ -72,7 +72,7 @@ def beamsearch_tour_nodes(y_pred_edges, beam_size, batch_size, num_nodes, dtypeF
         y = F.log_softmax(y_pred_edges, dim=3)  # B x V x V x voc_edges
         # Consider the second dimension only
         y = y[:, :, :, 1]  # B x V x V
-        y[y == 0] = -1e-20  # Set 0s (i.e. log(1)s) to very small negative number
+        y[y == 0] = -1e-10  # Set 0s (i.e. log(1)s) to very small negative number, still large once masked with 1e20
     # Perform beamsearch
     beamsearch = Beamsearch(beam_size, batch_size, num_nodes, dtypeFloat, dtypeLong, probs_type, random_start)
     trans_probs = y.gather(1, beamsearch.get_current_state())
@@ -117,7 +117,7 @@ def beamsearch_tour_nodes_shortest(y_pred_edges, x_edges_values, beam_size, batc
         y = F.log_softmax(y_pred_edges, dim=3)  # B x V x V x voc_edges
         # Consider the second dimension only
         y = y[:, :, :, 1]  # B x V x V
-        y[y == 0] = -1e-20  # Set 0s (i.e. log(1)s) to very small negative number
+        y[y == 0] = -1e-10  # Set 0s (i.e. log(1)s) to very small negative number, still large once masked with 1e20
     # Perform beamsearch
     beamsearch = Beamsearch(beam_size, batch_size, num_nodes, dtypeFloat, dtypeLong, probs_type, random_start)
     trans_probs = y.gather(1, beamsearch.get_current_state())
-- 
2.43.0


From 4757579af99d103f2ccdd2a72e16f2882189dd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:45 +0000
Subject: [PATCH 24/26] fix: mean_tour_len_nodes closes every tour at city 0

---
 src/HybridSolver/main/graph-convnet-tsp/utils/graph_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/graph-convnet-tsp/utils/graph_utils.py b/src/HybridSolver/main/graph-convnet-tsp/utils/graph_utils.py
index 552daa3..4a534fd 100644
--- a/src/HybridSolver/main/graph-convnet-tsp/utils/graph_utils.py
+++ b/src/HybridSolver/main/graph-convnet-tsp/utils/graph_utils.py
@@ -88,7 +88,7 @@ def mean_tour_len_nodes(x_edges_values, bs_nodes):
             i = y[batch_idx][y_idx]
             j = y[batch_idx][y_idx + 1]
             running_tour_len += W_val[batch_idx][i][j]
-        running_tour_len += W_val[batch_idx][j][0]  # Add final connection to tour/cycle
+        running_tour_len += W_val[batch_idx][j][y[batch_idx][0]]  # Add final connection to tour/cycle
     return running_tour_len / y.shape[0]
 
 
-- 
2.43.0


From 3c5b22fd9d94dc2ead97a3ab43d40343e8f1767c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:57 +0000
Subject: [PATCH 25/26] fix: the tables test the significance that was
 computed, not its rounding

---
 src/HybridSolver/results/AdjacencyMatrix/analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HybridSolver/results/AdjacencyMatrix/analyzer.py b/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
index 780af3c..9f87fde 100644
--- a/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
+++ b/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
@@ -388,7 +388,7 @@ def modify_string(old_tab, line, name, j):
     hyb_std = round(float(line.split()[2]), 2)
     cla_m = round(float(line.split()[3]), 2)
     cla_std = round(float(line.split()[4]), 2)
-    p_val = round(float(line.split()[5]), 2)
+    p_val = float(line.split()[5])
     #print(hyb_m, cla_m, name)
     if hyb_m < cla_m:
         old_tab = old_tab.replace("std_" + name + "_" + str(j), "\stdf{" + str(cla_std) + "}")
-- 
2.43.0


From e3e753c572996925864c37713fb209166ddf2bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:00 +0000
Subject: [PATCH 26/26] fix: the improvement profile crashed when one solver
 had no report of an instance

---
 src/HybridSolver/results/AdjacencyMatrix/analyzer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/HybridSolver/results/AdjacencyMatrix/analyzer.py b/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
index 9f87fde..73a75cf 100644
--- a/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
+++ b/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
@@ -22,6 +22,11 @@ import pandas as pd
 
 
 def improvement_profile(hyb_solutions, cla_solutions, num_nodes, profiles_path):
+    # only the instances that both solvers have a report of can be compared
+    same_ids = set(hyb_solutions.keys()).intersection(set(cla_solutions.keys()))
+    hyb_solutions = {key: value for key, value in hyb_solutions.items() if key in same_ids}
+    cla_solutions = {key: value for key, value in cla_solutions.items() if key in same_ids}
+
     # take all the times of the partial solutions
     times = set()
 
-- 
2.43.0

