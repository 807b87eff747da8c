/* The whole program: an instance file with symbolic numbers is read, solved and reported. check: 1 optimal, 2 genuine tour and cost,
 * 4 the report agrees with the file */
#include "bb.h"
extern int repo_main(int, char **);
static char buf[60000], *av[4]; static double best; static int ok_t;
static void opt(const int *t, int n, void *a) { for (int i = 0; i < n; i++) if (!I.has[t[i]][t[(i + 1) % n]]) return; ok_t = 1; if (vf_param("check", 7) & 1) vf_le(best, tour_w(t, n), EPS + TOL + 1e-6, "a tour is better than the printed one by more than the tolerance"); }
static const char *last(const char *key) { const char *o = vf_out(), *p = 0, *q = o; while ((q = strstr(q, key))) { p = q; q++; } return p ? p + strlen(key) : 0; }
static int nat(const char **p) { while (**p == ' ') (*p)++; if (**p < '0' || **p > '9') return -1; int v = 0; while (**p >= '0' && **p <= '9') v = v * 10 + *(*p)++ - '0'; return v; }
static void go(void *a) { repo_main(3, av); }
void harness(void) {
  int n = vf_param("n", 4), check = vf_param("check", 7); char *q = buf, n1[64], n2[64]; double prob = 0;
  inst_base(n, vf_param("base", 0), vf_param("sym", 3), vf_param("sp", 0));
  int from = 0; for (int k = 0; k < vf_param("miss", 0); k++) { char nb[32]; sprintf(nb, "missing_%d", k); int e = from + vf_choose(nb, npairs - from + 1); if (e >= npairs) break; from = e + 1; I.has[pa[e]][pb[e]] = I.has[pb[e]][pa[e]] = 0; }
  for (int i = 0; i < n; i++) { int d = 0; for (int j = 0; j < n; j++) d += I.has[i][j]; if (d < 2) vf_assume(0); }
  for (int i = 0; i < n; i++) q += sprintf(q, "(%g, %g)%s", i / 8.0, i * i / 64.0, i < n - 1 ? ";" : "\n");
  for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) { vf_num(i != j && I.has[i][j] ? I.w[i][j] : 0, n1); vf_num(i != j && I.has[i][j] ? I.p[i][j] : 0, n2); q += sprintf(q, "(%s, %s);", n1, n2); } q += sprintf(q, "\n"); }
  vf_file("in.csv", buf); av[0] = "BranchAndBound1Tree"; av[1] = strdup(vf_path("in.csv")); av[2] = strdup(vf_path("out.txt")); vf_out_reset();
  int rc = vf_try(go, 0); vf_true(rc <= 0, "the program fails on a well-formed instance"); if (rc > 0) return;
  const char *p = last("SUBPROBLEM with cost = "); char *e; vf_true(p != 0, "no cost is printed"); if (!p) return; best = vf_parse(p, &e);
  p = last("Cycle with "); vf_true(p != 0, "no tour is printed"); if (!p) return; int k = nat(&p);
  ok_t = 0; if (k == n) all_tours(n, opt, 0); else { check &= ~1; all_tours(n, opt, 0); }
  if (!ok_t) { vf_cover("instance without a tour"); vf_true(k == 0, "a tour is printed although none exists"); return; }
  vf_cover("solved"); vf_true(k == n, "a tour of %d roads is printed instead of %d", k, n); if (k != n) return;
  p = strstr(p, "edges:"); vf_true(p != 0, "no tour is printed"); if (!p) return; p += 6;
  int lastc = -1, first = -1, seen = 0; double c = 0;
  for (int i = 0; i < n; i++) { int a = nat(&p); while (*p == ' ') p++; vf_true(!strncmp(p, "<->", 3), "the printed tour is malformed"); if (strncmp(p, "<->", 3)) return; p += 3; int b = nat(&p);
    vf_true(a >= 0 && b >= 0 && a < n && b < n && I.has[a][b], "the printed tour uses a road that does not exist"); if (!(a >= 0 && b >= 0 && a < n && b < n && I.has[a][b])) return;
    vf_true(i == 0 || a == lastc, "the printed roads are not connected"); if (i == 0) first = a; lastc = b; seen |= 1 << a; c = c + I.w[a][b]; prob = prob + I.p[a][b]; while (*p == ',' || *p == ' ') p++; }
  vf_true(lastc == first && seen == (1 << n) - 1, "the printed walk is not a closed tour");
  if (check & 2) vf_eq(c, best, 1e-5, "the printed cost is not the length of the printed tour");
  if (check & 4) { p = last("interrupted = "); vf_true(p && !strncmp(p, "FALSE", 5), "a completed run is printed as interrupted"); p = last("prob_tour = "); vf_true(p != 0, "no probability is printed"); if (p) { double pr = vf_parse(p, &e); vf_eq(pr, HYBRID ? prob * (1.0 / n) : 0, 1e-5, "the printed probability is not the mean of those of the printed roads"); } }
}
