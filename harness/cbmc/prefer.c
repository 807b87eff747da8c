/* Which of two nodes is preferred, bit-precise: one of the two bounds and one of the two probabilities are 0, so that no rounding
 * depends on how the comparison is written; the thresholds themselves are decided for every double */
#include "nd.h"
#include "algorithms/branch_and_bound.h"
double sqrt(double x) { CHECK(x == 4, "unexpected square root"); return 2; }                     /* capacity 4 */
static SubProblem a, b;
void harness(void) {
  double eps = 2.0 * 1.27f / 1000, v = ndd(-2, 2), p = ndd(-1, 1); int s = nd(0, 1), t = nd(0, 1);
  a.value = s ? 0 : v; b.value = s ? v : 0; a.prob = t ? 0 : p; b.prob = t ? p : 0;
  double gain = s ? v : -v, dp = t ? -p : p;                  /* exact: b.value - a.value, a.prob - b.prob */
  int want = gain > eps || (HYBRID && gain > 0 && dp >= 0.05f);
  CHECK(!!compare_subproblems(&a, &b) == want, "a node is not preferred exactly when its bound is lower by more than the tolerance (or lower, and more probable by the threshold)");
  REACHED();
}
