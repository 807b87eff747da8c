/* Instances of 260 cities. argv[2]: sort, mst, csv, report, branch, cycle, chain, special */
#include <unistd.h>
#include "algorithms/branch_and_bound.h"
#include "tsp_instance_reader.h"
#define N 260
static Graph g; static double w[N][N], p[N][N]; static Problem P; static SubProblem s;
static int uf[N]; static int root(int x) { while (uf[x] != x) x = uf[x]; return x; }
static void fill(void) { srand(5); for (int i = 0; i < N; i++) for (int j = i + 1; j < N; j++) { w[i][j] = w[j][i] = (1 + rand() % 60000) / 64.0; p[i][j] = p[j][i] = HYBRID ? rand() % 100 / 100.0 : 0; } }
static void build(void) { memset(&g, 0, sizeof g); g.num_nodes = N; g.kind = WEIGHTED_GRAPH; int z = 0;
  for (int i = 0; i < N; i++) { g.nodes[i].positionInGraph = i; for (int j = 0; j < N; j++) if (j != i) { g.nodes[i].neighbours[g.nodes[i].num_neighbours++] = j; if (j > i) { Edge *e = &g.edges[z]; e->src = i; e->dest = j; e->symbol = z + 1; e->positionInGraph = z; e->weight = w[i][j]; e->prob = p[i][j]; g.edges_matrix[i][j] = g.edges_matrix[j][i] = *e; z++; } } }
  g.num_edges = z; }
static int fail(const char *m) { fprintf(stderr, "%s\n", m); return 1; }
int main(int argc, char **argv) {
  alarm(100); const char *m = argv[2]; int ne = N * (N - 1) / 2; fill();
  if (!strcmp(m, "sort")) { build(); wrap_quick_sort(&g); for (int i = 0; i < ne; i++) { Edge e = g.edges[i]; if (e.positionInGraph != i || e.weight != w[e.src][e.dest] || g.edges_matrix[e.src][e.dest].positionInGraph != i || g.edges_matrix[e.dest][e.src].positionInGraph != i) return fail("a position is wrong"); if (i && g.edges[i - 1].weight > e.weight) return fail("not sorted"); } }
  if (!strcmp(m, "mst")) { static MST a, b; build(); prim(&g, &a); build(); kruskal(&g, &b); if (fabs(a.cost - b.cost) > 1e-6) return fail("the costs differ");
    for (int q = 0; q < 2; q++) { MST *t = q ? &b : &a; if (t->num_edges != N - 1) return fail("number of roads"); for (int i = 0; i < N; i++) uf[i] = i; for (int i = 0; i < N - 1; i++) { int x = t->edges[i].src, y = t->edges[i].dest; if (t->edges_matrix[x][y] != i || t->edges_matrix[y][x] != i) return fail("adjacency matrix"); if (root(x) == root(y)) return fail("circuit"); uf[root(x)] = root(y); } } }
  if (!strcmp(m, "csv")) { char f[500]; snprintf(f, sizeof f, "%s/l.csv", argv[1]); FILE *o = fopen(f, "w"); for (int i = 0; i < N; i++) fprintf(o, "(%.4f, %.4f);", i / 4.0, 0.5); fprintf(o, "\n"); for (int i = 0; i < N; i++) { for (int j = 0; j < N; j++) fprintf(o, "(%.6f, %.2f);", w[i][j], p[i][j]); fprintf(o, "\n"); } fclose(o);
    read_tsp_csv_file(&g, f); if (g.num_nodes != N || g.num_edges != ne) return fail("size"); for (int i = 0; i < ne; i++) { Edge e = g.edges[i]; if (e.positionInGraph != i || e.symbol != i + 1 || e.weight != w[e.src][e.dest] || g.edges_matrix[e.dest][e.src].positionInGraph != i) return fail("a road is wrong"); } }
  if (!strcmp(m, "report")) { build(); P.graph = g; set_problem(&P); SubProblem *b = &P.bestSolution; b->type = CLOSED_NN; b->num_edges_in_cycle = N; b->value = 1; int t[N]; for (int i = 0; i < N; i++) t[i] = i; for (int i = N - 1; i > 0; i--) { int k = rand() % (i + 1), x = t[i]; t[i] = t[k]; t[k] = x; }
    for (int i = 0; i < N; i++) { int a = t[i], c = t[(i + 1) % N]; b->cycleEdges[i].src = a; b->cycleEdges[i].dest = c; }
    char f[500]; snprintf(f, sizeof f, "%s/r.txt", argv[1]); fflush(stdout); if (!freopen(f, "w", stdout)) return 3; print_problem(); fflush(stdout); char *x = malloc(1 << 20); FILE *i = fopen(f, "r"); size_t k = fread(x, 1, (1 << 20) - 1, i); x[k] = 0; char *q = strstr(x, "edges:"); if (!q) return fail("no cycle"); q += 6; int last = -1, first = -1, c = 0; char seen[N] = {0};
    for (; c < N; c++) { int a, b2, l; while (*q == ' ' || *q == ',') q++; if (sscanf(q, "%d <-> %d%n", &a, &b2, &l) != 2) break; q += l; if (c && a != last) return fail("the walk is broken"); if (!c) first = a; if (b2 < 0 || b2 >= N || seen[b2]) return fail("a city twice"); seen[b2] = 1; last = b2; } if (c != N || first != last) return fail("not closed"); }
  if (!strcmp(m, "branch")) { build(); P.graph = g; P.totTreeLevels = 1; set_problem(&P); for (int i = 0; i < MAX_VERTEX_NUM; i++) for (int j = 0; j < MAX_VERTEX_NUM; j++) s.constraints[i][j] = i == j ? FORBIDDEN : NOTHING; s.type = OPEN; s.treeLevel = 1;
    for (int k = 0; k < N - 1; k += 2) { int a = N - 1 - k, b = a - 1; s.constraints[a][b] = s.constraints[b][a] = MANDATORY; s.mandatoryEdges[s.num_mandatory_edges].src = b; s.mandatoryEdges[s.num_mandatory_edges++].dest = a; }
    s.edge_to_branch = g.edges_matrix[3][4].positionInGraph; SubProblemsList l; new_SubProblemList(&l); branch(&l, &s); if (l.size != 2) return fail("not two children"); SubProblem k[2]; for (int q = 0; q < 2; q++) k[q] = *get_SubProblemList_elem_index(&l, q);
    for (int q = 0; q < 2; q++) for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { int want = s.constraints[i][j], on = (i == 3 && j == 4) || (i == 4 && j == 3), man = k[q].constraints[3][4] == MANDATORY; if (on) continue; if (want == NOTHING && man && (i == 3 || i == 4 || j == 3 || j == 4)) want = FORBIDDEN; if (k[q].constraints[i][j] != want) return fail("a road is decided that may be either way, or not decided"); } }
  if (!strcmp(m, "cycle")) { build(); P.graph = g; set_problem(&P); for (int L = 3; L <= N; L++) { int k = 0; memset(&s, 0, sizeof s); create_mst(&s.oneTree, P.graph.nodes, N); for (int i = 0; i < N; i++) { int a = i, b = i < L ? (i + 1) % L : i - L + 1 < L ? i - L + 1 : i - 1; add_edge(&s.oneTree, &P.graph.edges_matrix[a][b]); k++; }
      int r = check_hamiltonian(&s); if (!!r != (L == N)) return fail("a tour is confused with another 1-tree"); if (s.num_edges_in_cycle != L) return fail("the cycle is not found"); } }
  if (!strcmp(m, "chain")) { for (int i = 0; i < 257; i++) w[i][i + 1] = w[i + 1][i] = 2000; build(); P.graph = P.reformulationGraph = g; P.bestValue = P.bestSolution.value = INFINITE; P.candidateNodeId = N - 1; P.totTreeLevels = 2; set_problem(&P); for (int i = 0; i < MAX_VERTEX_NUM; i++) for (int j = 0; j < MAX_VERTEX_NUM; j++) s.constraints[i][j] = i == j ? FORBIDDEN : NOTHING;
    for (int i = 0; i < 257; i++) { s.constraints[i][i + 1] = s.constraints[i + 1][i] = MANDATORY; s.mandatoryEdges[i].src = i; s.mandatoryEdges[i].dest = i + 1; } s.num_mandatory_edges = 257; s.type = OPEN; s.treeLevel = 2; s.value = 1; bound(&s);
    MST *t = s.type == OPEN ? &s.oneTree : &P.bestSolution.oneTree; for (int i = 0; i < 257; i++) { int in = 0; for (int k = 0; k < N; k++) in |= (t->edges[k].src == i && t->edges[k].dest == i + 1) || (t->edges[k].src == i + 1 && t->edges[k].dest == i); if (!in) return fail("the 1-tree leaves out a mandatory road"); } }
  if (!strcmp(m, "special")) { for (int j = 0; j < N; j++) { w[N - 2][j] += 3000; w[j][N - 2] = w[N - 2][j]; } build(); P.graph = P.reformulationGraph = g; P.bestValue = P.bestSolution.value = INFINITE; set_problem(&P); int c = find_candidate_node(); fprintf(stderr, "%d\n", c); if (c != N - 2) return fail("not the remote city"); }
  return 0;
}
