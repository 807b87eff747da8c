#include <functional>
// Symbolic runtime: executes instrumented LLVM code natively; doubles may be NaN-boxed linear forms.
#include "vf.h"
#include <z3++.h>
#include <setjmp.h>
#include <signal.h>
#include <dlfcn.h>
#include <link.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <float.h>
#include <time.h>
#include <errno.h>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <set>
#include <algorithm>
#include <atomic>
#include <memory>
using std::string; using std::vector;
typedef unsigned long long u64;

// ---------------------------------------------------------------- shared state
struct CexVal { char name[48]; double v; int isint; };
struct Shared {
  std::atomic<long> tokens, alive, paths, dropped, queries, sat, unsat, unknown, checks, checkq, forks, implied, concretised,
      inexact, unconfirmed, exhausted, lpyes, lpno, maxdepth, undecided, aux, exits, hangs, crashes;
  std::atomic<long> solver_us;
  std::atomic<int> stop;        // 1 violation confirmed, 2 out of budget
  std::atomic<int> lock;
  std::atomic<int> ncover, nwit;
  struct { char tag[64]; std::atomic<long> n; } cover[64];
  char violation[4096]; char replay[1024];
};
static Shared *S;
static volatile int in_lock;
static void lock() { in_lock = 1; int e = 0; while (!S->lock.compare_exchange_weak(e, 1)) { e = 0; usleep(50); } }
static void unlock() { S->lock = 0; in_lock = 0; }

// ---------------------------------------------------------------- linear forms
struct Term { int v; double k; };
struct Lin { double c; u64 off; int n; };
static vector<Term> tpool;
static vector<Lin> lins;
static vector<int> fids;          // float boxes -> lin id
static bool path_inexact;
static const u64 TAG = 0x7FFCull << 48;
static inline u64 bits(double d) { u64 b; memcpy(&b, &d, 8); return b; }
static inline double frombits(u64 b) { double d; memcpy(&d, &b, 8); return d; }
static inline bool is_sym(double d) { return (bits(d) >> 48) == 0x7FFC; }
static inline int sid(double d) { return (int)(bits(d) & 0xffffffffffull); }
static inline bool is_poison(double d) { u64 b = bits(d); return b == ~0ull || b == 0xAAAAAAAAAAAAAAAAull; }
static inline unsigned fbits(float f) { unsigned b; memcpy(&b, &f, 4); return b; }
static inline float ffrombits(unsigned b) { float f; memcpy(&f, &b, 4); return f; }
static inline bool is_symf(float f) { return (fbits(f) & 0xFFC00000u) == 0x7FC00000u && (fbits(f) & 0x3FFFFF) != 0; }
static inline bool is_poisonf(float f) { return fbits(f) == ~0u || fbits(f) == 0xAAAAAAAAu; }

struct Var { string name; double lo, hi; z3::expr e; int input; char op = 0; vector<double> a, b; };   // op: how an auxiliary value is computed from the forms a and b (coefficients, then the constant)
static z3::context *Z; static z3::solver *SV;
static vector<Var> vars;          // per path (recreated in order)
static std::unordered_map<string, z3::expr> varcache;
struct ChoiceRec { string name; int v; };
static vector<ChoiceRec> choices_taken;

static double box(const Lin &l) {
  if (l.n == 0) return l.c;
  lins.push_back(l);
  return frombits(TAG | (u64)(lins.size() - 1));
}
static Lin mk(double d) { if (is_sym(d)) return lins[sid(d)]; Lin l; l.c = d; l.off = 0; l.n = 0; return l; }
static inline double addx(double a, double b) {
  double s = a + b; double bb = s - a; double err = (a - (s - bb)) + (b - bb);
  if (err != 0 && std::isfinite(s)) path_inexact = true;
  return s;
}
static inline double mulx(double a, double b) {
  double p = a * b; if (std::isfinite(p) && fma(a, b, -p) != 0) path_inexact = true; return p;
}
static Lin comb(const Lin &a, double ka, const Lin &b, double kb) {
  Lin r; r.off = tpool.size(); r.n = 0;
  r.c = addx(ka == 1 ? a.c : mulx(ka, a.c), kb == 1 ? b.c : mulx(kb, b.c));
  int i = 0, j = 0;
  while (i < a.n || j < b.n) {
    Term t;
    if (j >= b.n || (i < a.n && tpool[a.off + i].v < tpool[b.off + j].v)) { t = tpool[a.off + i]; t.k = mulx(t.k, ka); i++; }
    else if (i >= a.n || tpool[b.off + j].v < tpool[a.off + i].v) { t = tpool[b.off + j]; t.k = mulx(t.k, kb); j++; }
    else { t = tpool[a.off + i]; t.k = addx(mulx(t.k, ka), mulx(tpool[b.off + j].k, kb)); i++; j++; }
    if (fabs(t.k) < 1e-13) { if (t.k != 0) path_inexact = true; continue; }
    tpool.push_back(t); r.n++;
  }
  return r;
}
static Lin scale(const Lin &a, double k) {
  Lin r; r.c = mulx(a.c, k); r.off = tpool.size(); r.n = 0;
  if (k == 0) { r.c = 0; return r; }
  for (int i = 0; i < a.n; i++) { Term t = tpool[a.off + i]; t.k = mulx(t.k, k); if (fabs(t.k) < 1e-13) { path_inexact = true; continue; } tpool.push_back(t); r.n++; }
  return r;
}
static void interval(const Lin &l, double &lo, double &hi, double &mag) {
  lo = hi = l.c; mag = fabs(l.c);
  for (int i = 0; i < l.n; i++) {
    const Term &t = tpool[l.off + i]; const Var &v = vars[t.v];
    if (t.k > 0) { lo += t.k * v.lo; hi += t.k * v.hi; } else { lo += t.k * v.hi; hi += t.k * v.lo; }
    mag += fabs(t.k) * std::max(fabs(v.lo), fabs(v.hi));
  }
}
static std::unordered_map<double, z3::expr> numcache;
static z3::expr num(double d) {
  auto it = numcache.find(d); if (it != numcache.end()) return it->second;
  z3::expr e(*Z);
  double a = fabs(d);
  if (a > 1e15) { char b[400]; snprintf(b, sizeof b, "%.0f", d); e = Z->real_val(b); }
  else {
    static int BITS = getenv("VF_BITS") ? atoi(getenv("VF_BITS")) : 44; int sh = a >= 4096 ? 8 : BITS; double sc = ldexp(d, sh);
    if (a >= 4096 && a < 1e12) { sh = 12; sc = ldexp(d, sh); }
    long long n = llround(sc); int s = sh;
    while (s > 0 && (n & 1) == 0) { n /= 2; s--; }
    char b[100]; if (s == 0) snprintf(b, sizeof b, "%lld", n); else snprintf(b, sizeof b, "%lld/%lld", n, 1ll << s);
    e = Z->real_val(b);
  }
  numcache.emplace(d, e); return e;
}
static z3::expr zlin(const Lin &l, bool withc) {
  z3::expr_vector ev(*Z);
  for (int i = 0; i < l.n; i++) { const Term &t = tpool[l.off + i]; ev.push_back(t.k == 1 ? vars[t.v].e : num(t.k) * vars[t.v].e); }
  if (withc && l.c != 0) ev.push_back(num(l.c));
  if (ev.size() == 0) return num(0);
  if (ev.size() == 1) return ev[0];
  return z3::sum(ev);
}
// truth sets over sign of (a-b): bit0 '<', bit1 '=', bit2 '>'
static z3::expr zrel(const Lin &d, int set) {
  z3::expr s = zlin(d, false), k = num(-d.c);
  switch (set) { case 1: return s < k; case 2: return s == k; case 3: return s <= k; case 4: return s > k; case 5: return s != k; case 6: return s >= k; }
  return Z->bool_val(set == 7);
}

// ---------------------------------------------------------------- trail / search
static string nospace(string s) { for (auto &c : s) if (c == ' ') c = '_'; return s; }
typedef std::shared_ptr<vector<double>> Model;
struct LC { vector<double> a; double b; int set; bool nl = false; std::shared_ptr<z3::expr> e; bool def = false; };   // sign(a.x+b) in set, or a non-linear fact e
typedef std::shared_ptr<LC> LCp;
struct Ev { char kind; int taken; bool open; z3::expr other; Model om; int n; int nc; LCp olc; };
enum { IMPL, DEC, ASSERT, CHOICE };
static vector<LCp> cons;          // path condition, in step with the trail; null: a non-linear fact
static vector<Ev> trail; static size_t pos, base_; static int level;
static Model model; static LCp dummy_lc;              // satisfies the current path condition (double approximation), may be null
static sigjmp_buf path_jmp; static volatile int in_path;
enum { J_DONE = 1, J_DROP, J_STOP, J_SIG, J_DEEP };
static double budget_end; static int worker_seed; static unsigned rng_state = 1;
static unsigned rnd() { rng_state = rng_state * 1664525u + 1013904223u; return rng_state >> 8; }
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double (*nowp)() = now;
static struct { char harness[128]; char so[512]; char replay[2048]; char outdir[512]; int nomodelgrid; int hang; int poison; int wit; int mem; } O;
static std::unordered_map<string, int> known;   // canonical diff -> possible sign set on this path
static u64 rlimit_q = 40000000;

static volatile int in_solver; static volatile int hang_ticks;
static bool fresh = true; static int qdepth; static long ver, built = -1; static size_t built_vars;
static void rebuild();
static inline void TPUSH() { ver++; if (!fresh) SV->push(); }
static inline void TPOP() { ver++; if (!fresh) SV->pop(); }
static inline void TADD(const z3::expr &e) { ver++; if (!fresh) SV->add(e); }
static inline void QB() { if (fresh && !qdepth) rebuild(); qdepth++; SV->push(); }
static inline void QE() { SV->pop(); qdepth--; }
static z3::check_result zcheck() {
  if (fresh && !qdepth) rebuild();
  double t = nowp(); z3::check_result r;
  in_solver++;
  try { r = SV->check(); } catch (z3::exception &e) { r = z3::unknown; }
  in_solver--;
  S->solver_us += (long)((nowp() - t) * 1e6); S->queries++;
  if (r == z3::sat) S->sat++; else if (r == z3::unsat) S->unsat++; else S->unknown++;
  return r;
}
static double rat2d(const z3::expr &e) {
  if (e.is_numeral()) {
    string n = Z3_get_numeral_string(*Z, e); size_t p = n.find('/');
    if (p == string::npos) return strtod(n.c_str(), 0);
    string a = n.substr(0, p), b = n.substr(p + 1);
    if (a.size() > 250 || b.size() > 250) { // scale both
      size_t cut = std::min(a.size(), b.size()); cut = cut > 40 ? cut - 40 : 0;
      a = a.substr(0, a.size() - cut); b = b.substr(0, b.size() - cut);
    }
    return (double)(strtold(a.c_str(), 0) / strtold(b.c_str(), 0));
  }
  string s = Z3_get_numeral_decimal_string(*Z, e, 17); return strtod(s.c_str(), 0);
}
static Model getmodel() {
  try {
    z3::model m = SV->get_model(); auto r = std::make_shared<vector<double>>();
    for (auto &v : vars) { z3::expr x = m.eval(v.e, true); r->push_back((x.is_numeral() || x.is_algebraic()) ? rat2d(x) : 0); }
    return r;
  } catch (z3::exception &) { return nullptr; }
}
static int evalsign(const Lin &d, const Model &m) {   // 0 unknown, else bit
  if (!m || m->size() < vars.size()) return 0;
  double s = d.c, mag = fabs(d.c);
  for (int i = 0; i < d.n; i++) { const Term &t = tpool[d.off + i]; double x = t.k * (*m)[t.v]; s += x; mag += fabs(x); }
  if (fabs(s) <= 1e-10 * (1 + mag)) return 0;
  return s < 0 ? 1 : 4;
}
static void leave(int why) { qdepth = 0; built = -1; siglongjmp(path_jmp, why); }
static void check_stop() {
  if (S->stop) leave(J_STOP);
  static int k; if ((++k & 31) == 0 && now() > budget_end) { S->stop = 2; leave(J_STOP); }
}
static z3::expr lc_expr(LC &c) {
  if (c.e) return *c.e;
  z3::expr_vector ev(*Z); for (size_t i = 0; i < c.a.size(); i++) if (c.a[i] != 0) ev.push_back(c.a[i] == 1 ? vars[i].e : num(c.a[i]) * vars[i].e);
  z3::expr s = ev.size() == 1 ? ev[0] : z3::sum(ev), k = num(-c.b), r(*Z);
  switch (c.set) { case 1: r = s < k; break; case 2: r = s == k; break; case 3: r = s <= k; break; case 4: r = s > k; break; case 5: r = s != k; break; default: r = s >= k; }
  c.e = std::make_shared<z3::expr>(r); return r; }
static void rebuild() {
  if (built == ver && built_vars == vars.size()) return;
  SV->reset();
  for (auto &v : vars) if (v.input) { SV->add(v.e >= num(v.lo)); SV->add(v.e <= num(v.hi)); }
  for (auto &c : cons) SV->add(lc_expr(*c));
  built = ver; built_vars = vars.size(); }
static string canon(const Lin &d, double &sgn) {
  // scaled by leading coefficient
  string r; sgn = 1; if (d.n == 0) return r;
  double k = tpool[d.off].k; sgn = k < 0 ? -1 : 1; k = fabs(k);
  char b[64]; float cc = (float)0; (void)cc;
  r.reserve(d.n * 12 + 16);
  for (int i = 0; i < d.n; i++) { const Term &t = tpool[d.off + i]; double q = sgn * t.k / k; r.append((char *)&t.v, 4); r.append((char *)&q, 8); }
  double q = sgn * d.c / k; if (q == 0) q = 0; r.append((char *)&q, 8); (void)b;
  return r;
}
static int flipset(int s) { return (s & 2) | ((s & 1) << 2) | ((s >> 2) & 1); }


// ---------------------------------------------------------------- linear programming filter
// Branch feasibility is first settled by a small dual simplex in floating point whose answers are verified: "infeasible" by a
// Farkas certificate re-evaluated with a safety margin, "feasible" by a witness point evaluated against every fact of the path.
// Anything it cannot verify goes to Z3, and so does every property check.
static LCp mklc(const Lin &d, int set) {
  auto r = std::make_shared<LC>(); r->b = d.c; r->set = set;
  for (int i = 0; i < d.n; i++) { const Term &t = tpool[d.off + i]; if ((int)r->a.size() <= t.v) r->a.resize(t.v + 1, 0); r->a[t.v] += t.k; }
  return r; }
static bool sat_at(const LC &c, const vector<double> &x) {
  double s = c.b, mag = fabs(c.b); for (size_t i = 0; i < c.a.size(); i++) if (c.a[i] != 0) { double y = c.a[i] * x[i]; s += y; mag += fabs(y); }
  if (c.set == 2) return fabs(s) <= 1e-9 * (1 + mag);
  double m = 1e-11 * (1 + mag);
  if (s < -m) return c.set & 1; if (s > m) return c.set & 4; return c.set & 2; }
static double lc_eval(const LC &c, const vector<double> &x) { double s = c.b; for (size_t i = 0; i < c.a.size(); i++) s += c.a[i] * x[i]; return s; }
// maximise sg*(a.x+b) over the path condition. 0: rigorous bound < 0; 1: witness in out; -1: not settled
static vector<int> lp_support; static bool lp_strict;
static vector<vector<double>> A_; static vector<double> r_; static vector<int> src_;
static bool same_form(const LC &p, const LC &q) {
  if (p.a.size() != q.a.size()) return false; double sg = 0;
  for (size_t i = 0; i < p.a.size(); i++) { if (p.a[i] == 0 && q.a[i] == 0) continue; if (p.a[i] == 0) return false; double z = q.a[i] / p.a[i]; if (sg == 0) sg = z; else if (z != sg) return false; }
  return sg != 0 && q.b == sg * p.b; }
static bool lp_rows(size_t k) {      // the path condition as rows A y <= r over y = x - lo; false if there are non-linear facts
  A_.clear(); r_.clear(); src_.clear(); bool lin = true, anyeq = false; int ci = -1;
  for (auto &c : cons) if (!c->nl && c->set == 2) anyeq = true;
  for (auto &c : cons) {
    ci++;
    if (c->nl) { lin = false; continue; }
    if (anyeq && c->set != 2) { bool dup = false; for (auto &e : cons) if (e->set == 2 && !e->nl && same_form(*e, *c)) { dup = true; break; } if (dup) continue; }
    for (int side : {1, 4}) {
      if (side == 1 && (c->set & 4)) continue; if (side == 4 && (c->set & 1)) continue;
      double z = side == 1 ? 1 : -1; vector<double> row(k, 0); double rhs = -z * c->b;
      for (size_t i = 0; i < c->a.size(); i++) { row[i] = z * c->a[i]; rhs -= row[i] * vars[i].lo; }
      A_.push_back(row); r_.push_back(rhs); src_.push_back(ci);
    }
  }
  return lin; }
// max c.y, A y <= r, 0 <= y <= u, by the simplex method on the dual. lam: multipliers, y: optimal point. false: not settled
static bool simplex(const vector<double> &cst, const vector<double> &u, vector<double> &lam, vector<double> &y) {
  size_t k = cst.size(), m = A_.size(), N = m + 2 * k; double sgn;
  static vector<vector<double>> T; T.resize(k); vector<int> bas(k); vector<double> red(N + 1, 0);
  for (size_t j = 0; j < k; j++) {
    T[j].assign(N + 1, 0); sgn = cst[j] >= 0 ? 1 : -1;
    for (size_t i = 0; i < m; i++) T[j][i] = sgn * A_[i][j];
    T[j][m + j] = sgn; T[j][m + k + j] = -sgn; T[j][N] = sgn * cst[j]; bas[j] = sgn > 0 ? m + j : m + k + j;
  }
  for (size_t i = 0; i < m; i++) red[i] = r_[i];
  for (size_t j = 0; j < k; j++) red[m + j] = u[j];
  for (size_t j = 0; j < k; j++) { double cb = bas[j] < (int)(m + k) ? u[j] : 0; if (cb != 0) for (size_t q = 0; q <= N; q++) red[q] -= cb * T[j][q]; }
  for (int it = 0;; it++) {
    if (it > 300) return false;
    int e = -1; double bst = -1e-10;
    for (size_t q = 0; q < N; q++) if (red[q] < bst) { e = q; if (it > 100) break; bst = red[q]; }
    if (e < 0) break;
    int l = -1; double br = 1e300;
    for (size_t j = 0; j < k; j++) if (T[j][e] > 1e-9) { double q = T[j][N] / T[j][e]; if (q < br - 1e-15 || (q < br + 1e-15 && l >= 0 && bas[j] < bas[l])) { br = q; l = j; } }
    if (l < 0) return false;
    double p = T[l][e]; for (size_t q = 0; q <= N; q++) T[l][q] /= p;
    for (size_t j = 0; j < k; j++) if ((int)j != l && T[j][e] != 0) { double w = T[j][e]; for (size_t q = 0; q <= N; q++) T[j][q] -= w * T[l][q]; }
    double w = red[e]; for (size_t q = 0; q <= N; q++) red[q] -= w * T[l][q];
    bas[l] = e;
  }
  lam.assign(m, 0); y.assign(k, 0);
  for (size_t j = 0; j < k; j++) { if (bas[j] < (int)m) lam[bas[j]] = std::max(0.0, T[j][N]); y[j] = std::max(0.0, std::min(u[j], red[m + k + j])); }
  return true; }
// maximise sg*(a.x+b) over the path condition. 0: verified bound < 0; 1: witness in out; -1: not settled
static int lp_max(const LC &f, double sg, const Model &from, Model &out) {
  size_t k = vars.size(); if (k > 40) return -1;
  bool lin = lp_rows(k); size_t m = A_.size();
  vector<double> cst(k, 0), u(k), lam, y; double c0 = sg * f.b;
  for (size_t i = 0; i < k; i++) { u[i] = vars[i].hi - vars[i].lo; if (i < f.a.size()) { cst[i] = sg * f.a[i]; c0 += cst[i] * vars[i].lo; } }
  if (!simplex(cst, u, lam, y)) return -1;
  vector<double> res(cst); double ub = c0, mag = fabs(c0);
  for (size_t i = 0; i < m; i++) if (lam[i] > 0) { ub += lam[i] * r_[i]; mag += fabs(lam[i] * r_[i]); for (size_t j = 0; j < k; j++) { res[j] -= lam[i] * A_[i][j]; mag += fabs(lam[i] * A_[i][j]) * u[j]; } }
  for (size_t j = 0; j < k; j++) { mag += fabs(cst[j]) * u[j]; if (res[j] > 0) ub += res[j] * u[j]; }
  if (ub < (lp_strict ? 1e-10 : -1e-12) * (1 + mag)) { lp_support.clear(); for (size_t i = 0; i < m; i++) if (lam[i] > 0) lp_support.push_back(src_[i]); return 0; }
  if (!lin || !from || from->size() < k) return -1;
  vector<double> x(k); for (size_t j = 0; j < k; j++) x[j] = vars[j].lo + y[j];
  double fx = sg * lc_eval(f, x), fm = sg * lc_eval(f, *from);
  if (fx <= 1e-9) return -1;
  double t = fm >= 0 ? 0.5 : 0.5 * fx / (fx - fm);
  auto w = std::make_shared<vector<double>>(k); for (size_t j = 0; j < k; j++) (*w)[j] = (1 - t) * x[j] + t * (*from)[j];
  if (sg * lc_eval(f, *w) < 1e-10) return -1;
  for (auto &c : cons) if (!sat_at(*c, *w)) return -1;
  out = w; return 1;
}
// replaces the model by a point well inside the path condition, when there is one
static void ensure_interior() {
  size_t k = vars.size(); if (k > 40) return;
  if (model && model->size() >= k) { bool ok = true; for (auto &c : cons) if (c->nl || !sat_at(*c, *model)) { ok = false; break; } if (ok) return; }
  if (!lp_rows(k)) return;
  vector<double> cst(k + 1, 0), u(k + 1), lam, y; double w = 0;
  for (size_t i = 0; i < k; i++) { u[i] = vars[i].hi - vars[i].lo; w = std::max(w, u[i]); }
  u[k] = w; cst[k] = 1;
  for (size_t i = 0; i < A_.size(); i++) { auto &row = A_[i]; double n = 0; if (cons[src_[i]]->set == 2) { row.push_back(0); continue; } for (double q : row) n += q * q; row.push_back(sqrt(n)); }
  for (size_t i = 0; i < k; i++) { vector<double> a(k + 1, 0); a[i] = 1; a[k] = 1; A_.push_back(a); r_.push_back(u[i]); a[i] = -1; A_.push_back(a); r_.push_back(0); }
  if (!simplex(cst, u, lam, y) || y[k] < 1e-8) return;
  auto m = std::make_shared<vector<double>>(k); for (size_t i = 0; i < k; i++) (*m)[i] = vars[i].lo + y[i];
  for (auto &c : cons) if (!sat_at(*c, *m)) return;
  model = m; }
static int lp_side(const LC &f, int set, const Model &from, Model &out) {
  lp_strict = false;
  if (set == 2) {
    Model p, q; int r1 = lp_max(f, 1, from, p); if (r1 == 0) return 0; int r2 = lp_max(f, -1, from, q); if (r2 == 0) return 0;
    if (r1 == 1 && r2 == 1) { double a = lc_eval(f, *p), b = -lc_eval(f, *q), t = b / (a + b); auto w = std::make_shared<vector<double>>(*p);
      for (size_t i = 0; i < w->size(); i++) (*w)[i] = t * (*p)[i] + (1 - t) * (*q)[i];
      for (auto &c : cons) if (!sat_at(*c, *w)) return -1;
      out = w; return 1; }
    return -1; }
  bool all0 = true;
  lp_strict = !(set & 2);
  for (int side : {1, 4}) if (set & side) { int r = lp_max(f, side == 4 ? 1 : -1, from, out); if (r == 1) return 1; if (r != 0) all0 = false; }
  return all0 ? 0 : -1;
}

static bool try_fork();
// decide whether sign(d) in set; forks when both are possible
static bool decide(const Lin &d, int set) {
  if (set == 7) return true; if (set == 0) return false;
  if (d.n == 0) { int s = d.c < 0 ? 1 : d.c == 0 ? 2 : 4; if (std::isnan(d.c)) return false; return (s & set) != 0; }
  if (std::isnan(d.c)) return false;
  if (std::isinf(d.c)) return ((d.c < 0 ? 1 : 4) & set) != 0;
  double lo, hi, mag; interval(d, lo, hi, mag);
  double sl = 1e-12 * mag;
  if (lo > sl) return (4 & set) != 0;
  if (hi < -sl) return (1 & set) != 0;
  double sg; string key = canon(d, sg); int cs = sg < 0 ? flipset(set) : set;
  auto it = known.find(key); int poss = it == known.end() ? 7 : it->second;
  if ((poss & ~cs) == 0) return true; if ((poss & cs) == 0) return false;
  check_stop();
  if (pos < trail.size()) {
    Ev &e = trail[pos++];
    if (e.kind != DEC && e.kind != IMPL) { fprintf(stderr, "engine: nondeterministic replay\n"); _exit(99); }
    known[key] = poss & (e.taken ? cs : ~cs & 7);
    return e.taken;
  }
  if (trail.size() > 400000) leave(J_DEEP);
  int s = evalsign(d, model); if (!s) { ensure_interior(); s = evalsign(d, model); } bool may_t = false, may_f = false; Model mt, mf;
  if (s) { if (s & set) { may_t = true; mt = model; } else { may_f = true; mf = model; } }
  auto q = [&](int st, Model &m) -> int {
    QB(); SV->add(zrel(d, st)); z3::check_result r = zcheck(); if (r == z3::sat) m = getmodel(); QE();
    return r == z3::sat ? 1 : r == z3::unsat ? 0 : 2;
  };
  LCp ly = mklc(d, set), ln = mklc(d, ~set & 7); bool nolp = getenv("VF_NOLP");
  auto lq = [&](int st, Model &m) -> int { int r = nolp ? -1 : lp_side(*ly, st, model, m); if (r == 0) S->lpno++; if (r == 1) S->lpyes++; return r; };
  if (!may_t) { int r = lq(set, mt); if (r < 0) r = q(set, mt); may_t = r != 0; }
  if (!may_f) { if (!may_t) may_f = true; else { int r = lq(~set & 7, mf); if (r < 0) r = q(~set & 7, mf); may_f = r != 0; } }
  if (may_t && may_f) {
    bool t = s ? (s & set) != 0 : true;            // stay with the current model most of the time
    if (rnd() % 4 == 0) t = !t;
    S->forks++;
    z3::expr yes(*Z), no(*Z); if (!fresh) { yes = zrel(d, set); no = zrel(d, ~set & 7); }
    TPUSH(); level++;
    TADD(t ? yes : no); model = t ? mt : mf;
    trail.push_back(Ev{DEC, t, true, t ? no : yes, t ? mf : mt, 0, (int)cons.size(), t ? ln : ly}); pos++;
    cons.push_back(t ? ly : ln);
    size_t me = trail.size() - 1;
    if (S->tokens > 0 && try_fork()) {             // child: other side
      TPOP(); TPUSH(); TADD(trail[me].other); model = trail[me].om; cons.back() = trail[me].olc;
      trail[me].taken = !t; t = !t;
      for (auto &e : trail) e.open = false;
      base_ = trail.size();
    } else if (S->tokens < 0) {}
    if (trail[me].open && trail[me].n == -1) trail[me].open = false;
    known[key] = poss & (t ? cs : ~cs & 7);
    return t;
  }
  bool t = may_t; S->implied++;
  if (t && mt && !model) model = mt; if (!t && mf && !model) model = mf;
  trail.push_back(Ev{IMPL, t, false, z3::expr(*Z), nullptr, 0, (int)cons.size(), nullptr}); pos++;
  known[key] = poss & (t ? cs : ~cs & 7);
  return t;
}
static void arm();
static bool try_fork() {
  long t = S->tokens.fetch_sub(1);
  if (t <= 0) { S->tokens++; return false; }
  S->alive++;
  fflush(stdout);
  pid_t p = fork();
  if (p < 0) { S->tokens++; S->alive--; return false; }
  if (p == 0) { rng_state ^= getpid() * 2654435761u; arm(); return true; }      // timers are not inherited
  trail.back().n = -1;    // the child has the other side
  trail.back().open = false;
  return false;
}
static void add_assert(const z3::expr &e, LCp lc = nullptr, bool box = false, bool def = false) {
  if (pos < trail.size()) { pos++; return; }
  TADD(e); model = nullptr;
  trail.push_back(Ev{ASSERT, 0, false, e, nullptr, 0, (int)cons.size(), nullptr}); pos++;
  if (!box) { if (!lc) { lc = std::make_shared<LC>(); lc->nl = true; lc->def = def; lc->e = std::make_shared<z3::expr>(e); } cons.push_back(lc); }
}

// ---------------------------------------------------------------- counterexamples
static bool in_report;
struct Pend { Lin d; double tol; string msg; };     // violated iff d > tol
static vector<Pend> pend;
static vector<Pend> orset; static bool in_or;
static std::set<string> path_cover;
static string write_cex(const vector<double> &m, const string &msg) {
  static int k; char path[700]; snprintf(path, sizeof path, "%s/cex.%d.%d", O.outdir, getpid(), k++);
  FILE *f = fopen(path, "w");
  fprintf(f, "# %s\n", msg.c_str());
  for (auto &c : choices_taken) fprintf(f, "C %s %d\n", nospace(c.name).c_str(), c.v);
  for (size_t i = 0; i < vars.size() && i < m.size(); i++) if (vars[i].input) fprintf(f, "D %s %a %.17g\n", nospace(vars[i].name).c_str(), m[i], m[i]);
  fclose(f); return path;
}
static void write_wit() {
  string tags; for (auto &t : path_cover) tags += (tags.empty() ? "" : ", ") + t;
  vector<double> e; string p = write_cex(model ? *model : e, "path: " + tags); rename(p.c_str(), (p + ".wit").c_str());
}
static void report(const vector<double> &m, const string &msg) {
  if (S->stop == 1) leave(J_STOP);
  string p = write_cex(m, msg);
  string cmd = string(O.replay) + " " + p + " > " + p + ".log 2>&1";
  int st = 0;
  if (O.replay[0]) st = system(cmd.c_str());
  bool confirmed = O.replay[0] ? (WIFEXITED(st) && WEXITSTATUS(st) == 1) : true;
  if (!confirmed) {
    S->unconfirmed++;
    if (getenv("VF_KEEP_UNCONF")) fprintf(stderr, "unconfirmed: %s (%s)\n", msg.c_str(), p.c_str());
    else { unlink(p.c_str()); unlink((p + ".log").c_str()); }
    return;
  }
  lock();
  if (S->stop != 1) { S->stop = 1; snprintf(S->violation, sizeof S->violation, "%s", msg.c_str()); snprintf(S->replay, sizeof S->replay, "%s", p.c_str()); }
  unlock();
}
// find a model of the current solver state, preferring values on a dyadic grid
static bool nice_model(Model &m, int) {
  m = getmodel();
  if (!m) return false;
  if (O.nomodelgrid) return true;
  int depth = 0; QB(); depth++;
  auto attempt = [&](size_t i, double y) -> bool {
    if (y < vars[i].lo || y > vars[i].hi) return false;
    QB(); SV->add(vars[i].e == num(y));
    if (zcheck() == z3::sat) { Model m2 = getmodel(); if (m2) { (*m2)[i] = y; for (size_t k = 0; k < i; k++) if (vars[k].input) (*m2)[k] = (*m)[k]; m = m2; } depth++; return true; }
    QE(); return false;
  };
  for (size_t i = 0; i < vars.size() && i < m->size(); i++) if (vars[i].input) {
    bool ok = false;
    for (int g = 6; g <= 20 && !ok; g += 7) {
      double x = (*m)[i], sc = ldexp(1, g), f = floor(x * sc);
      for (int dl : {0, 1, -1}) if (!ok) ok = attempt(i, (f + dl) / sc);
    }
  }
  while (depth--) QE();
  return true;
}
static bool current_model(Model &m) {
  if (zcheck() != z3::sat) return false;
  return nice_model(m, 1);
}
static long reported_msgs;
// ---- points for paths with non-linear facts: inputs are guessed, every other value is computed from them as the code does
static vector<double> form(const Lin &l) { vector<double> r(vars.size() + 1, 0); for (int i = 0; i < l.n; i++) r[tpool[l.off + i].v] += tpool[l.off + i].k; r.back() = l.c; return r; }
static void complete(vector<double> &x) {
  auto ev = [&](const vector<double> &f) { double s = f.back(); for (size_t i = 0; i + 1 < f.size(); i++) if (f[i] != 0) s += f[i] * x[i]; return s; };
  for (size_t i = 0; i < vars.size(); i++) if (vars[i].op) { double a = ev(vars[i].a), b = vars[i].b.empty() ? 0 : ev(vars[i].b);
    x[i] = vars[i].op == '*' ? a * b : vars[i].op == '/' ? a / b : vars[i].op == 's' ? sqrt(a < 0 ? 0 : a) : vars[i].op == 'f' ? (double)(float)a : x[i]; } }
static bool guess_point(const std::function<bool(const Model &)> &good, Model &out) {
  bool any = false; for (auto &v : vars) if (v.op) any = true; if (!any) return false;
  for (auto &c : cons) if (c->nl && !c->def) return false;
  unsigned long long g = 0x9E3779B97F4A7C15ull * (worker_seed + 1);
  auto r01 = [&]() { g ^= g << 13; g ^= g >> 7; g ^= g << 17; return (g >> 11) * (1.0 / 9007199254740992.0); };
  vector<vector<double>> bases; if (model && model->size() >= vars.size()) bases.push_back(*model);
  for (int t = 0; t < 400; t++) {
    auto m = std::make_shared<vector<double>>(vars.size(), 0.0);
    for (size_t i = 0; i < vars.size(); i++) if (vars[i].input) { double lo = vars[i].lo, hi = vars[i].hi, x = lo + (hi - lo) * r01();
      if (!bases.empty()) { const auto &b = bases[t % bases.size()]; x = t == 0 ? b[i] : t % 4 ? b[i] + (hi - lo) * (r01() - 0.5) * (t % 3 ? 0.05 : 0.4) : x; x = x < lo ? lo : x > hi ? hi : x; }
      (*m)[i] = x; }
    complete(*m); bool ok = true;
    for (auto &c : cons) if (!c->nl && !sat_at(*c, *m)) { ok = false; break; }
    if (ok) { if (good(m)) { out = m; return true; } if (bases.size() < 8) bases.push_back(*m); } }
  return false; }
// a point as far as possible from every boundary of the path condition (and of one extra fact)
static Model interior_point(LCp extra) {
  if (!fresh) return nullptr;
  Model keep = model, r; model = nullptr; if (extra) cons.push_back(extra);
  ensure_interior(); r = model; model = keep; if (extra) cons.pop_back();
  return r;
}
static void violation_now(const string &msg) {
  Model m;
  if (reported_msgs++ > 40) return;
  if (Model w = interior_point(nullptr)) { report(*w, msg); if (S->stop == 1) leave(J_STOP); }
  if (!current_model(m)) { S->unknown++; if (!guess_point([](const Model &) { return true; }, m)) { S->undecided++; return; } }
  report(*m, msg);
  if (S->stop == 1) leave(J_STOP);
}
static bool replaying_prefix() { return pos < trail.size(); }
static void flush_checks() {
  if (pend.empty()) return;
  vector<Pend> p; p.swap(pend);
  z3::expr_vector dis(*Z);
  for (auto &q : p) { Lin d = q.d; d.c -= q.tol; dis.push_back(zrel(d, 4)); }
  S->checkq++;
  if (fresh) {   // first ask with only the facts that a linear program says are needed
    std::set<int> core; bool ok = true; Model w;
    for (auto &q : p) { Lin d = q.d; d.c -= q.tol; auto lc = mklc(d, 4); lp_strict = false; int r = lp_max(*lc, 1, nullptr, w); if (r != 0) { ok = false; break; } core.insert(lp_support.begin(), lp_support.end()); }
    if (ok) {
      SV->reset(); built = -1;
      for (auto &v : vars) { double sl = v.input ? 0 : 1e-12 * (fabs(v.lo) + fabs(v.hi)); SV->add(v.e >= num(v.lo - sl)); SV->add(v.e <= num(v.hi + sl)); }
      for (int i : core) SV->add(lc_expr(*cons[i]));
      SV->add(z3::mk_or(dis)); qdepth++; z3::check_result r = zcheck(); qdepth--;
      if (r == z3::unsat) return;
    }
  }
  QB(); SV->add(z3::mk_or(dis));
  z3::check_result r = zcheck();
  if (r == z3::sat) {
    if (fresh) for (auto &q : p) { Lin d = q.d; d.c -= q.tol; if (Model w = interior_point(mklc(d, 4))) if (evalsign(d, w) == 4 && reported_msgs++ <= 40) { report(*w, q.msg); if (S->stop == 1) break; } }
    // prefer clear violations
    if (S->stop != 1)
    for (double extra : {0.02, 0.001, 0.0}) {
      QB(); z3::expr_vector d2(*Z);
      for (auto &q : p) { Lin d = q.d; d.c -= q.tol + extra; d2.push_back(zrel(d, 4)); }
      SV->add(z3::mk_or(d2));
      if (zcheck() == z3::sat) {
        Model m; nice_model(m, 1);
        if (m) {
          string msg = p[0].msg; for (auto &q : p) { Lin d = q.d; d.c -= q.tol; if (evalsign(d, m) == 4) { msg = q.msg; break; } }
          if (reported_msgs++ <= 40) report(*m, msg);
        }
        QE(); if (S->stop == 1 || extra == 0.0) break; else continue;
      }
      QE();
    }
  }
  QE();
  if (r == z3::unknown) {   // not settled by the solver: counted, and at least one point of this path is tried on the native code
    Model w; string msg;
    if (guess_point([&](const Model &g) { for (auto &q : p) { Lin d = q.d; d.c -= q.tol; if (evalsign(d, g) == 4) { msg = q.msg; return true; } } return false; }, w)) { if (reported_msgs++ <= 40) report(*w, msg); if (S->stop == 1) leave(J_STOP); }
    S->undecided++; if (getenv("VF_DEBUGU")) { for (auto &q : p) { double lo, hi, mg; interval(q.d, lo, hi, mg); fprintf(stderr, "undecided: %s n=%d [%g,%g] tol %g\n", q.msg.c_str(), q.d.n, lo, hi, q.tol); } fprintf(stderr, "--\n"); }
    static int tried; if (tried++ < 60) { Model m = model; if (!m) m = interior_point(nullptr); if (!m) current_model(m); if (m) for (auto &q : p) { Lin d = q.d; d.c -= q.tol; report(*m, q.msg); break; } }
  }
  if (S->stop == 1) leave(J_STOP);
}
static string vfmt(const char *fmt, va_list ap);
static void push_check(const Lin &d, double tol, const string &msg) {
  S->checks++;
  if (d.n == 0) { if ((d.c > tol || std::isnan(d.c)) && !replaying_prefix()) violation_now(msg); return; }
  double lo, hi, mag; interval(d, lo, hi, mag);
  if (hi < tol || (hi <= tol && tol == 0 && d.c == 0)) return;
  pend.push_back(Pend{d, tol, msg});
  if (pend.size() >= 64) flush_checks();
}

// ---------------------------------------------------------------- FP operations
static void poison_use(const char *what) {
  if (!O.poison) return;
  if (replaying_prefix()) return;
  static int n; if (n++ > 20) return;
  violation_now(string("an uninitialised value is used: ") + what);
}
static int new_aux(const char *nm, double lo, double hi) {
  char b[64]; snprintf(b, sizeof b, "aux%zu_%s", vars.size(), nm);
  auto it = varcache.find(b); z3::expr e = it != varcache.end() ? it->second : Z->real_const(b);
  if (it == varcache.end()) varcache.emplace(b, e);
  vars.push_back(Var{b, lo, hi, e, 0}); S->aux++;
  return vars.size() - 1;
}
static void defaux(int v, char op, const Lin &a, const Lin *b) { vars[v].op = op; vars[v].a = form(a); if (b) vars[v].b = form(*b); }
static Lin linvar(int v) { Lin l; l.c = 0; l.off = tpool.size(); l.n = 1; tpool.push_back(Term{v, 1}); return l; }
static std::map<string, int> auxmemo;     // operation key -> var (per path)
static string lkey(const Lin &l) { string r; r.append((char *)&l.c, 8); for (int i = 0; i < l.n; i++) { r.append((char *)&tpool[l.off + i].v, 4); r.append((char *)&tpool[l.off + i].k, 8); } return r; }
static Lin lmul(Lin a, Lin b) {
  if (a.n == 0) return scale(b, a.c);
  if (b.n == 0) return scale(a, b.c);
  double s = 1;
  if (tpool[a.off].k < 0) { a = scale(a, -1); s = -s; }
  if (tpool[b.off].k < 0) { b = scale(b, -1); s = -s; }
  string ka = lkey(a), kb = lkey(b); if (kb < ka) { std::swap(ka, kb); std::swap(a, b); }
  string key = "*" + ka + "|" + kb; auto it = auxmemo.find(key); int v;
  if (it != auxmemo.end()) v = it->second;
  else {
    double al, ah, bl, bh, m; interval(a, al, ah, m); interval(b, bl, bh, m);
    double c[4] = {al * bl, al * bh, ah * bl, ah * bh}; double lo = *std::min_element(c, c + 4), hi = *std::max_element(c, c + 4);
    bool sq = ka == kb; if (sq && lo < 0) lo = 0;
    v = new_aux("mul", lo, hi); auxmemo[key] = v; defaux(v, '*', a, &b);
    add_assert(vars[v].e == zlin(a, true) * zlin(b, true) && vars[v].e >= num(lo) && vars[v].e <= num(hi), nullptr, false, true);
  }
  return scale(linvar(v), s);
}
static Lin ldiv_(const Lin &a, const Lin &b) {
  if (b.n == 0) {
    double k = 1.0 / b.c; if (b.c == 0) { Lin r; r.off = 0; r.n = 0; r.c = NAN; return r; }
    int ex; if (frexp(fabs(b.c), &ex) == 0.5) return scale(a, k);
    Lin r; r.c = a.c / b.c; r.off = tpool.size(); r.n = 0; path_inexact = true;
    for (int i = 0; i < a.n; i++) { Term t = tpool[a.off + i]; t.k = t.k / b.c; if (fabs(t.k) < 1e-13) continue; tpool.push_back(t); r.n++; }
    return r;
  }
  string key = "/" + lkey(a) + "|" + lkey(b); auto it = auxmemo.find(key); if (it != auxmemo.end()) return linvar(it->second);
  decide(b, 2) ? (void)0 : (void)0;
  double bl, bh, al, ah, m; interval(b, bl, bh, m); interval(a, al, ah, m);
  double lo = -1e18, hi = 1e18; if (bl > 0 || bh < 0) { double c[4] = {al / bl, al / bh, ah / bl, ah / bh}; lo = *std::min_element(c, c + 4); hi = *std::max_element(c, c + 4); }
  int v = new_aux("div", lo, hi); auxmemo[key] = v; defaux(v, '/', a, &b);
  add_assert(vars[v].e * zlin(b, true) == zlin(a, true), nullptr, false, true);
  return linvar(v);
}
static double concretise(double d) {
  // pick the model's value and constrain the path to it; the other values are not explored
  Lin l = mk(d); if (l.n == 0) return l.c;
  S->concretised++;
  double v;
  if (pos < trail.size()) { Ev &e = trail[pos++]; return (*e.om)[0]; }
  if (zcheck() != z3::sat) leave(J_DROP);
  z3::model mm = SV->get_model(); z3::expr x = mm.eval(zlin(l, true), true); v = rat2d(x);
  TADD(zlin(l, true) == x); model = nullptr;
  auto om = std::make_shared<vector<double>>(); om->push_back(v); qdepth = 0;
  trail.push_back(Ev{ASSERT, 0, false, x, om, 0, (int)cons.size(), nullptr}); pos++; { auto lc = std::make_shared<LC>(); lc->nl = true; lc->e = std::make_shared<z3::expr>(zlin(l, true) == x); cons.push_back(lc); }
  return v;
}
static Lin lsqrt(const Lin &a) {
  string key = "s" + lkey(a); auto it = auxmemo.find(key); if (it != auxmemo.end()) return linvar(it->second);
  double lo, hi, m; interval(a, lo, hi, m); if (hi < 0) hi = 0; if (lo < 0) lo = 0;
  int v = new_aux("sqrt", sqrt(lo), sqrt(hi) * (1 + 1e-15)); auxmemo[key] = v; defaux(v, 's', a, nullptr);
  add_assert(vars[v].e * vars[v].e == zlin(a, true) && vars[v].e >= num(0), nullptr, false, true);
  return linvar(v);
}
extern "C" {
void __sym_ichk_i8(unsigned char v) { if (v == 0xAA) poison_use("in a decision"); }
void __sym_ichk_i16(unsigned short v) { if (v == 0xAAAA) poison_use("in a decision"); }
void __sym_ichk_i32(unsigned v) { if (v == 0xAAAAAAAAu || v == 0xAAAAu || v == 0xFFFFAAAAu) poison_use("in a decision"); }
void __sym_ichk_i64(u64 v) { if (v == 0xAAAAAAAAAAAAAAAAull || v == 0xAAAAAAAAull || v == 0xFFFFFFFFAAAAAAAAull || v == 0xAAAAull || v == 0xFFFFFFFFFFFFAAAAull) poison_use("in a decision"); }
#define CHKP(a, b, what) if (__builtin_expect(is_poison(a) || is_poison(b), 0)) poison_use(what)
double __sym_fadd_double(double a, double b) { CHKP(a, b, "in an addition"); if (!is_sym(a) && !is_sym(b)) return a + b; return box(comb(mk(a), 1, mk(b), 1)); }
double __sym_fsub_double(double a, double b) { CHKP(a, b, "in a subtraction"); if (!is_sym(a) && !is_sym(b)) return a - b; return box(comb(mk(a), 1, mk(b), -1)); }
double __sym_fmul_double(double a, double b) { CHKP(a, b, "in a multiplication"); if (!is_sym(a) && !is_sym(b)) return a * b; return box(lmul(mk(a), mk(b))); }
double __sym_fdiv_double(double a, double b) { CHKP(a, b, "in a division"); if (!is_sym(a) && !is_sym(b)) return a / b; return box(ldiv_(mk(a), mk(b))); }
double __sym_frem_double(double a, double b) { return fmod(concretise(a), concretise(b)); }
double __sym_fneg_double(double a) { if (!is_sym(a)) return -a; return box(scale(mk(a), -1)); }
static bool fcmp(int p, double a, double b) {
  if (!is_sym(a) && !is_sym(b)) {
    switch (p) { case 0: return false; case 1: return a == b; case 2: return a > b; case 3: return a >= b; case 4: return a < b; case 5: return a <= b;
      case 6: return a < b || a > b; case 7: return a == a && b == b; case 8: return a != a || b != b; case 9: return !(a < b || a > b); case 10: return !(a <= b); case 11: return !(a < b);
      case 12: return !(a >= b); case 13: return !(a > b); case 14: return a != b; default: return true; }
  }
  double k = is_sym(a) ? b : a;
  if (!is_sym(k) && std::isnan(k)) return p >= 8;
  static const int set[16] = {0, 2, 4, 6, 1, 3, 5, 7, 0, 2, 4, 6, 1, 3, 5, 7};
  if (!is_sym(k) && (std::isinf(k) || fabs(k) > 1e300)) { // far outside every box
    int s = (k > 0) == is_sym(a) ? 1 : 4; return (s & set[p]) != 0; }
  return decide(comb(mk(a), 1, mk(b), -1), set[p]);
}
bool __sym_fcmp_double(int p, double a, double b) { CHKP(a, b, "in a comparison"); return fcmp(p, a, b); }
// float
static double f2d(float f) { if (is_symf(f)) return frombits(TAG | (u64)fids[fbits(f) & 0x3FFFFF]); if (fbits(f) == ~0u) return frombits(~0ull); return f; }
static float symfloat(double d) { fids.push_back(sid(d)); if (fids.size() >= 0x3FFFFF) leave(J_DEEP); return ffrombits(0x7FC00000u | (unsigned)(fids.size() - 1)); }
static double round32(double d) {   // rounding to float: within 2^-23 relative, modelled by a fresh value
  if (!is_sym(d)) return (double)(float)d;
  Lin l = mk(d); string key = "f" + lkey(l); auto it = auxmemo.find(key); if (it != auxmemo.end()) return box(linvar(it->second));
  double lo, hi, m; interval(l, lo, hi, m); double eps = std::max(fabs(lo), fabs(hi)) * ldexp(1, -23) + 1e-40;
  int v = new_aux("f32", (double)(float)lo, (double)(float)hi); auxmemo[key] = v; defaux(v, 'f', l, nullptr);
  { Lin d = comb(linvar(v), 1, l, -1), u = d, w = d; u.c -= eps; w.c += eps; add_assert(zrel(u, 3), mklc(u, 3)); add_assert(zrel(w, 6), mklc(w, 6)); }
  return box(linvar(v));
}
float __sym_fptrunc(double d) { if (!is_sym(d)) { if (is_poison(d)) return ffrombits(~0u); return (float)d; } return symfloat(round32(d)); }
double __sym_fpext(float f) { return f2d(f); }
static float d2f(double d) { if (!is_sym(d)) return (float)d; return symfloat(round32(d)); }
float __sym_fadd_float(float a, float b) { if (!is_symf(a) && !is_symf(b)) return a + b; return d2f(__sym_fadd_double(f2d(a), f2d(b))); }
float __sym_fsub_float(float a, float b) { if (!is_symf(a) && !is_symf(b)) return a - b; return d2f(__sym_fsub_double(f2d(a), f2d(b))); }
float __sym_fmul_float(float a, float b) { if (!is_symf(a) && !is_symf(b)) return a * b; return d2f(__sym_fmul_double(f2d(a), f2d(b))); }
float __sym_fdiv_float(float a, float b) { if (!is_symf(a) && !is_symf(b)) return a / b; return d2f(__sym_fdiv_double(f2d(a), f2d(b))); }
float __sym_frem_float(float a, float b) { return fmodf((float)concretise(f2d(a)), (float)concretise(f2d(b))); }
float __sym_fneg_float(float a) { if (!is_symf(a)) return -a; return symfloat(__sym_fneg_double(f2d(a))); }
bool __sym_fcmp_float(int p, float a, float b) { if (is_poisonf(a) || is_poisonf(b)) poison_use("in a comparison"); return fcmp(p, f2d(a), f2d(b)); }
static long long toint(double d) {
  if (!is_sym(d)) return (long long)d;
  Lin l = mk(d);
  for (;;) { // fork over the integer part
    long long k; 
    if (pos < trail.size()) { Ev &e = trail[pos]; if (e.kind == ASSERT && e.om) { k = (long long)(*e.om)[0]; pos++; } else { fprintf(stderr, "engine: replay mismatch (toint)\n"); _exit(99); } }
    else {
      if (zcheck() != z3::sat) leave(J_DROP);
      z3::model mm = SV->get_model(); k = (long long)rat2d(mm.eval(zlin(l, true), true));
      auto om = std::make_shared<vector<double>>(); om->push_back((double)k);
      trail.push_back(Ev{ASSERT, 0, false, Z->bool_val(true), om, 0, (int)cons.size(), nullptr}); pos++;
    }
    Lin lo = l, hi = l; lo.c -= k >= 0 ? k : k - 1; hi.c -= k > 0 ? k + 1 : k == 0 ? 1 : k;
    if (k == 0) lo.c = l.c + 1;
    bool a = k > 0 ? decide(lo, 6) : decide(lo, 4);
    if (!a) continue;
    bool b = k >= 0 ? decide(hi, 1) : decide(hi, 3);
    if (b) return k;
  }
}
long long __sym_fptosi_double(double d) { return toint(d); }
long long __sym_fptosi_float(float f) { return toint(f2d(f)); }
long long __sym_fptoui_double(double d) { return toint(d); }
long long __sym_fptoui_float(float f) { return toint(f2d(f)); }
// libm
double __rt_fabs(double a) { if (!is_sym(a)) return fabs(a); return decide(mk(a), 1) ? box(scale(mk(a), -1)) : a; }
float __rt_fabsf(float a) { if (!is_symf(a)) return fabsf(a); return d2f(__rt_fabs(f2d(a))); }
double __rt_sqrt(double a) { if (!is_sym(a)) return sqrt(a); if (decide(mk(a), 1)) return NAN; return box(lsqrt(mk(a))); }
float __rt_sqrtf(float a) { if (!is_symf(a)) return sqrtf(a); return d2f(__rt_sqrt(f2d(a))); }
double __rt_pow(double a, double b) {
  if (!is_sym(a) && !is_sym(b)) return pow(a, b);
  if (!is_sym(b)) { if (b == 1) return a; if (b == 2) return box(lmul(mk(a), mk(a))); if (b == 0.5) return __rt_sqrt(a); if (b == 3) return box(lmul(mk(box(lmul(mk(a), mk(a)))), mk(a))); if (b == 0) return 1; }
  return pow(concretise(a), concretise(b)); }
double __rt_powi(double a, int b) { return __rt_pow(a, b); }
double __rt_hypot(double a, double b) { if (!is_sym(a) && !is_sym(b)) return hypot(a, b); return __rt_sqrt(__sym_fadd_double(__sym_fmul_double(a, a), __sym_fmul_double(b, b))); }
double __rt_fmuladd(double a, double b, double c) { return __sym_fadd_double(__sym_fmul_double(a, b), c); }
double __rt_log(double a) { return log(concretise(a)); }
double __rt_log2(double a) { return log2(concretise(a)); }
double __rt_log10(double a) { return log10(concretise(a)); }
double __rt_exp(double a) { return exp(concretise(a)); }
double __rt_ceil(double a) { if (!is_sym(a)) return ceil(a); return ceil(concretise(a)); }
double __rt_floor(double a) { if (!is_sym(a)) return floor(a); return floor(concretise(a)); }
double __rt_round(double a) { if (!is_sym(a)) return round(a); return round(concretise(a)); }
double __rt_trunc(double a) { if (!is_sym(a)) return trunc(a); return (double)toint(a); }
double __rt_fmin(double a, double b) { return fcmp(4, a, b) ? a : b; }
double __rt_fmax(double a, double b) { return fcmp(2, a, b) ? a : b; }
int __rt_isnan(double a) { return !is_sym(a) && std::isnan(a); }
int __rt_rand(void) { return 4; }
void __rt_srand(unsigned) {}
}

// ---------------------------------------------------------------- environment
static string outbuf; static string file_out; 
struct VFile { string content; };
static std::map<string, string> vfiles;
static std::set<FILE *> open_files;
static vector<long> clock_script; static int clock_i; static long (*clock_cb)(int);
struct TryFrame { sigjmp_buf jb; };
static vector<TryFrame *> tries; static int try_code;
// heap of the code under test: every block between red zones, never reused within a path
static char *arena; static size_t arena_n, arena_hw; static const size_t ARENA = 1ull << 32; static const size_t RZ = 32;
struct Blk { size_t off, n; bool freed; };
static vector<Blk> blks; static std::unordered_map<size_t, int> blkidx;
static void *heap_alloc(size_t n, int fill) {
  if (!arena) arena = (char *)mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  size_t sz = (n + 15) & ~15ull;
  if (arena_n + sz + 2 * RZ > (512u << 20)) leave(J_DEEP);
  char *p = arena + arena_n; memset(p, 0xFB, RZ); memset(p + RZ, fill, n); memset(p + RZ + n, 0xFB, sz - n + RZ);
  blkidx[arena_n + RZ] = blks.size(); blks.push_back(Blk{arena_n + RZ, n, false}); arena_n += sz + 2 * RZ; 
  return p + RZ;
}
static bool zone_ok(const Blk &b) {
  size_t sz = (b.n + 15) & ~15ull; const unsigned char *p = (unsigned char *)arena + b.off;
  for (size_t i = 0; i < RZ; i++) if (p[-(long)RZ + (long)i] != 0xFB) return false;
  for (size_t i = b.n; i < sz + RZ; i++) if (p[i] != 0xFB) return false;
  if (b.freed) for (size_t i = 0; i < b.n; i++) if (p[i] != 0xAA) return false;
  return true;
}
static int heap_find(void *p) { size_t o = (char *)p - arena; auto it = blkidx.find(o); if (!arena || it == blkidx.end() || blks[it->second].freed) return -1; return it->second; }
static size_t heap_size(void *p) { int i = heap_find(p); if (i < 0) { violation_now("memory is reallocated that is not allocated"); return 0; } return blks[i].n; }
static void heap_free(void *p) {
  int i = heap_find(p); if (i < 0) { violation_now("memory is freed that is not allocated"); return; }
  Blk &b = blks[i]; bool ok = zone_ok(b); b.freed = true; memset(p, 0xAA, b.n);
  if (!ok) violation_now("memory is written outside an allocated block");
}
static void heap_check() { for (auto &b : blks) if (!zone_ok(b)) { violation_now(b.freed ? "memory is written after it was freed" : "memory is written outside an allocated block"); return; } }
static void heap_reset() { blks.clear(); blkidx.clear(); if (arena_n > (1u << 20)) madvise(arena, arena_n, MADV_DONTNEED); arena_n = 0; }

static string numtext(double d) { char b[64]; if (is_sym(d)) snprintf(b, sizeof b, "@%d@", sid(d)); else snprintf(b, sizeof b, "%.17g", d); return b; }
static string vfmt(const char *fmt, va_list ap) {
  string o;
  for (const char *p = fmt; *p; p++) {
    if (*p != '%') { o += *p; continue; }
    if (p[1] == '%') { o += '%'; p++; continue; }
    string spec = "%"; p++;
    while (strchr("-+ #0123456789.*", *p) && *p) { if (*p == '*') spec += std::to_string(va_arg(ap, int)); else spec += *p; p++; }
    string len; while (strchr("hlLzjt", *p) && *p) { len += *p; p++; }
    char b[512];
    switch (*p) {
      case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'c': {
        long long v; if (len == "l" || len == "ll" || len == "z" || len == "j" || len == "t") v = va_arg(ap, long long); else v = va_arg(ap, int);
        if (len == "h") v = (*p == 'd' || *p == 'i') ? (short)v : (unsigned short)v;
        if (((len == "" && (unsigned)v == 0xAAAAAAAAu) || (len == "h" && (unsigned short)v == 0xAAAA))) poison_use("in printed text");
        if (len == "") { if (*p == 'u' || *p == 'x' || *p == 'X' || *p == 'o') v = (unsigned)v; }
        if (*p == 'c') { b[0] = (char)v; b[1] = 0; } else snprintf(b, sizeof b, (spec + "ll" + *p).c_str(), v);
        o += b; break; }
      case 'f': case 'F': case 'g': case 'G': case 'e': case 'E': {
        double d = va_arg(ap, double);
        if (is_poison(d)) poison_use("in printed text");
        if (is_sym(d)) o += numtext(d); else { snprintf(b, sizeof b, (spec + *p).c_str(), d); o += b; }
        break; }
      case 's': { const char *s = va_arg(ap, const char *); if (!s) s = "(null)"; size_t dot = spec.find('.'); if (dot != string::npos) o += string(s, strnlen(s, atoi(spec.c_str() + dot + 1))); else { string t(s); int w = atoi(spec.c_str() + 1); while ((int)t.size() < w) t = " " + t; o += t; } break; }
      case 'p': { void *v = va_arg(ap, void *); snprintf(b, sizeof b, "%p", v); o += b; break; }
      default: o += spec + len + *p;
    }
    if (!*p) break;
  }
  return o;
}
static void emit(FILE *f, const string &s) {
  if (f == stderr) return;
  if (f == stdout || !f) { outbuf += s; if (outbuf.size() > (8u << 20)) leave(J_DEEP); return; }
  fwrite(s.data(), 1, s.size(), f);
}
static int to_exit(int code) {
  S->exits++;
  if (!tries.empty()) { try_code = code; TryFrame *t = tries.back(); siglongjmp(t->jb, 1); }
  if (!O.mem) violation_now("the program exits unexpectedly with status " + std::to_string(code));
  leave(J_DROP); return 0;
}
// scanning over text with number tokens
static bool scan_number(const char *&p, double &v, bool isint) {
  while (isspace((unsigned char)*p)) p++;
  if (*p == '@') { char *e; long id = strtol(p + 1, &e, 10); if (*e != '@' || id < 0 || id >= (long)lins.size()) return false; if (isint) return false; v = frombits(TAG | (u64)id); p = e + 1; return true; }
  char *e; if (isint) { long x = strtol(p, &e, 10); v = (double)x; } else v = strtod(p, &e);
  if (e == p) return false; p = e; return true;
}
static int vscan(const char *&p, const char *fmt, va_list ap) {
  int n = 0;
  for (const char *f = fmt; *f; f++) {
    if (isspace((unsigned char)*f)) { while (isspace((unsigned char)*p)) p++; continue; }
    if (*f != '%') { if (*p != *f) return n ? n : (*p ? 0 : -1); p++; continue; }
    f++; bool skip = false; if (*f == '*') { skip = true; f++; }
    int width = 0; while (isdigit((unsigned char)*f)) width = width * 10 + (*f++ - '0');
    string len; while (*f && strchr("hlLzjt", *f)) len += *f++;
    switch (*f) {
      case 'f': case 'g': case 'e': case 'a': { double v; const char *q = p; while (isspace((unsigned char)*q)) q++; if (!*q) return n ? n : -1;
        if (!scan_number(p, v, false)) return n; if (skip) break;
        if (len == "l") *va_arg(ap, double *) = v; else *va_arg(ap, float *) = __sym_fptrunc(v); n++; break; }
      case 'd': case 'i': case 'u': { double v; const char *q = p; while (isspace((unsigned char)*q)) q++; if (!*q) return n ? n : -1;
        if (!scan_number(p, v, true)) return n; if (skip) break; long long x = (long long)v;
        if (len == "h") *va_arg(ap, short *) = (short)x; else if (len == "hh") *va_arg(ap, char *) = (char)x; else if (len == "") *va_arg(ap, int *) = (int)x; else *va_arg(ap, long *) = x; n++; break; }
      case 's': { while (isspace((unsigned char)*p)) p++; if (!*p) return n ? n : -1; char *d = skip ? 0 : va_arg(ap, char *); int w = 0; while (*p && !isspace((unsigned char)*p) && (!width || w < width)) { if (d) *d++ = *p; p++; w++; } if (d) { *d = 0; n++; } break; }
      case 'c': { if (!*p) return n ? n : -1; if (!skip) { *va_arg(ap, char *) = *p; n++; } p++; break; }
      case 'n': *va_arg(ap, int *) = 0; break;
      case '[': { bool neg = false; f++; if (*f == '^') { neg = true; f++; } string set; do { set += *f++; } while (*f && *f != ']'); char *d = skip ? 0 : va_arg(ap, char *); int w = 0; while (*p && ((set.find(*p) != string::npos) != neg) && (!width || w < width)) { if (d) *d++ = *p; p++; w++; } if (!w) return n; if (d) { *d = 0; n++; } break; }
      case '%': if (*p != '%') return n; p++; break;
    }
  }
  return n;
}
extern "C" {
int __rt_printf(const char *f, ...) { va_list ap; va_start(ap, f); string s = vfmt(f, ap); va_end(ap); emit(0, s); return s.size(); }
int __rt_vprintf(const char *f, va_list ap) { string s = vfmt(f, ap); emit(0, s); return s.size(); }
int __rt_fprintf(FILE *fp, const char *f, ...) { va_list ap; va_start(ap, f); string s = vfmt(f, ap); va_end(ap); emit(fp, s); return s.size(); }
int __rt_vfprintf(FILE *fp, const char *f, va_list ap) { string s = vfmt(f, ap); emit(fp, s); return s.size(); }
int __rt_puts(const char *s) { emit(0, string(s) + "\n"); return 1; }
int __rt_putchar(int c) { emit(0, string(1, (char)c)); return c; }
int __rt_fputs(const char *s, FILE *f) { emit(f, s); return 1; }
int __rt_fputc(int c, FILE *f) { emit(f, string(1, (char)c)); return c; }
size_t __rt_fwrite(const void *p, size_t a, size_t b, FILE *f) { emit(f, string((const char *)p, a * b)); return b; }
int __rt_sprintf(char *d, const char *f, ...) { va_list ap; va_start(ap, f); string s = vfmt(f, ap); va_end(ap); memcpy(d, s.c_str(), s.size() + 1); return s.size(); }
int __rt_vsprintf(char *d, const char *f, va_list ap) { string s = vfmt(f, ap); memcpy(d, s.c_str(), s.size() + 1); return s.size(); }
int __rt_vsnprintf(char *d, size_t n, const char *f, va_list ap) { string s = vfmt(f, ap); if (n) { size_t k = std::min(n - 1, s.size()); memcpy(d, s.data(), k); d[k] = 0; } return s.size(); }
int __rt_snprintf(char *d, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = __rt_vsnprintf(d, n, f, ap); va_end(ap); return r; }
void __rt_perror(const char *) {}
void __rt_exit(int c) { to_exit(c); }
void __rt_abort(void) { to_exit(134); }
void __rt_assert_fail(const char *, const char *, unsigned, const char *) { to_exit(134); }
FILE *__rt_fopen(const char *n, const char *m) {
  auto it = vfiles.find(n); if (it == vfiles.end() || m[0] != 'r') return 0;
  FILE *f = it->second.empty() ? fopen("/dev/null", "r") : fmemopen((void *)it->second.data(), it->second.size(), "r");
  open_files.insert(f); return f; }
FILE *__rt_freopen(const char *, const char *, FILE *f) { return f; }
int __rt_fclose(FILE *f) { if (f == stdout || f == stderr) return 0; if (!open_files.erase(f)) { violation_now("a file is closed twice"); return -1; } return fclose(f); }
int __rt_fflush(FILE *) { return 0; }
int __rt_sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = vscan(s, f, ap); va_end(ap); return r; }
int __rt_fscanf(FILE *fp, const char *f, ...) {
  string rest; long at = ftell(fp); int c; while ((c = fgetc(fp)) != EOF) rest += (char)c;
  const char *p = rest.c_str(), *q = p; va_list ap; va_start(ap, f); int r = vscan(q, f, ap); va_end(ap);
  fseek(fp, at + (q - p), SEEK_SET); return r; }
double __rt_strtod(const char *s, char **e) { const char *p = s; double v = 0; bool ok = scan_number(p, v, false); if (e) *e = (char *)(ok ? p : s); return ok ? v : 0; }
float __rt_strtof(const char *s, char **e) { return __sym_fptrunc(__rt_strtod(s, e)); }
double __rt_atof(const char *s) { return __rt_strtod(s, 0); }
void *__rt_malloc(size_t n) { return heap_alloc(n, 0xAA); }
void *__rt_calloc(size_t a, size_t b) { return heap_alloc(a * b, 0); }
void __rt_free(void *p) { if (p) heap_free(p); }
void *__rt_realloc(void *p, size_t n) { if (!p) return heap_alloc(n, 0xAA); size_t o = heap_size(p); void *q = heap_alloc(n, 0xAA); memcpy(q, p, std::min(o, n)); heap_free(p); return q; }
ssize_t __rt_getdelim(char **l, size_t *n, int delim, FILE *f) {
  string s; int c; while ((c = fgetc(f)) != EOF) { s += (char)c; if (c == delim) break; }
  if (s.empty()) { if (!*l) { *n = 16; *l = (char *)__rt_malloc(16); (*l)[0] = 0; } return -1; }
  if (!*l || *n < s.size() + 1) { *l = (char *)__rt_realloc(*l, s.size() + 1); *n = s.size() + 1; }
  memcpy(*l, s.c_str(), s.size() + 1); return s.size(); }
ssize_t __rt_getline(char **l, size_t *n, FILE *f) { return __rt_getdelim(l, n, '\n', f); }
long __rt_clock(void) { clock_i++; if (clock_i > 50000000) leave(J_DEEP); if (clock_cb) return clock_cb(clock_i - 1); clock_i--; long v = clock_script.empty() ? 0 : clock_script[std::min((size_t)clock_i, clock_script.size() - 1)]; clock_i++; if (clock_i > 50000000) leave(J_DEEP); return v; }
long __rt_time(long *t) { long v = __rt_clock() / 1000000; if (t) *t = v; return v; }
double __rt_difftime(long a, long b) { return a - b; }
int __rt_clock_gettime(int, struct timespec *t) { long v = __rt_clock(); t->tv_sec = v / 1000000; t->tv_nsec = (v % 1000000) * 1000; return 0; }

// ---------------------------------------------------------------- harness API
static string sfmt(const char *f, va_list ap) { return vfmt(f, ap); }
static double spread(int i) { double d = i * 0.6180339887498949 + worker_seed * 0.1234567; return 0.1 + 0.8 * (d - floor(d)); }
double vf_double(const char *name, double lo, double hi) {
  if (const char *fx = getenv("VF_FIX")) { FILE *f = fopen(fx, "r"); char l[300], n[64]; double v; while (f && fgets(l, 300, f)) if (sscanf(l, "D %63s %la", n, &v) == 2 && nospace(name) == n) { fclose(f); return v; } if (f) fclose(f); }
  auto it = varcache.find(name); z3::expr e = it != varcache.end() ? it->second : Z->real_const(name);
  if (it == varcache.end()) varcache.emplace(name, e);
  vars.push_back(Var{name, lo, hi, e, 1});
  bool fresh = pos >= trail.size();
  Model keep = model;
  add_assert(e >= num(lo) && e <= num(hi), nullptr, true);
  if (fresh && keep && keep->size() == vars.size() - 1) { auto m = std::make_shared<vector<double>>(*keep); m->push_back(lo + (hi - lo) * spread(vars.size())); model = m; }
  else if (fresh && vars.size() == 1) { auto m = std::make_shared<vector<double>>(); m->push_back(lo + (hi - lo) * spread(1)); model = m; }
  return box(linvar(vars.size() - 1));
}
int vf_choose(const char *name, int n) {
  int v;
  if (n <= 1) { choices_taken.push_back({name, 0}); return 0; }
  check_stop();
  if (pos < trail.size()) v = trail[pos++].taken;
  else {
    v = 0; TPUSH(); level++;
    trail.push_back(Ev{CHOICE, v, n > 1, Z->bool_val(true), model, n, (int)cons.size(), nullptr}); pos++;
    // hand out alternatives to idle workers
    while (v + 1 < n && S->tokens > 0) {
      size_t me = trail.size() - 1; int savedn = trail[me].n;
      if (try_fork()) { // child explores v+1..; parent keeps v only
        v++; trail[me].taken = v; trail[me].n = savedn;
        for (auto &e : trail) e.open = false;
        trail[me].open = v + 1 < savedn; base_ = me; 
        continue;
      }
      if (trail[me].n == -1) { trail[me].n = savedn; trail[me].open = false; }
      break;
    }
  }
  choices_taken.push_back({name, v}); return v;
}
void vf_assume(int c) { if (!c) leave(J_DROP); }
void vf_assume_le(double a, double b) {
  Lin d = comb(mk(a), 1, mk(b), -1);
  if (d.n == 0) { if (d.c > 0) leave(J_DROP); return; }
  bool fresh = pos >= trail.size(); Model keep = model;
  LCp lc = mklc(d, 3); Model w; int r = -1;
  if (fresh) { if (keep && evalsign(d, keep) == 1) { w = keep; r = 1; } else r = lp_side(*lc, 1, keep, w); if (r == 0) r = -1; }
  add_assert(zrel(d, 3), lc);
  if (fresh) { if (r == 1) model = w; else { if (zcheck() != z3::sat) leave(J_DROP); model = getmodel(); } }
}
void vf_le(double a, double b, double tol, const char *f, ...) { if (O.mem) return; va_list ap; va_start(ap, f); string m = sfmt(f, ap); va_end(ap); 
  if ((!is_sym(a) && std::isinf(a) && a < 0) || (!is_sym(b) && !is_sym(a) && a <= b)) { S->checks++; return; }
  push_check(comb(mk(a), 1, mk(b), -1), tol, m); }
void vf_eq(double a, double b, double tol, const char *f, ...) { if (O.mem) return; va_list ap; va_start(ap, f); string m = sfmt(f, ap); va_end(ap);
  Lin d = comb(mk(a), 1, mk(b), -1); push_check(d, tol, m); push_check(scale(d, -1), tol, m); }
void vf_true(int c, const char *f, ...) { if (O.mem) { if (!c) leave(J_DONE); return; } if (replaying_prefix()) return; S->checks++; if (c) return; va_list ap; va_start(ap, f); string m = sfmt(f, ap); va_end(ap); flush_checks(); violation_now(m); }
void vf_or_begin(void) { orset.clear(); }
void vf_or_le(double a, double b, double tol) { orset.push_back(Pend{comb(mk(a), 1, mk(b), -1), tol, ""}); }
void vf_or_end(const char *f, ...) {
  if (O.mem) return;
  if (replaying_prefix()) return;
  va_list ap; va_start(ap, f); string m = sfmt(f, ap); va_end(ap);
  S->checks++; z3::expr_vector con(*Z); 
  for (auto &q : orset) { Lin d = q.d; d.c -= q.tol; if (d.n == 0) { if (d.c <= 0) return; continue; } con.push_back(zrel(d, 4)); }
  flush_checks();
  QB(); if (con.size()) SV->add(z3::mk_and(con)); S->checkq++;
  if (zcheck() == z3::sat) { Model mo; nice_model(mo, 1); if (mo && reported_msgs++ <= 40) report(*mo, m); }
  QE(); if (S->stop == 1) leave(J_STOP);
}
int vf_try(void (*f)(void *), void *arg) {
  TryFrame t; tries.push_back(&t); int r = -1;
  if (sigsetjmp(t.jb, 0) == 0) f(arg); else r = try_code;
  tries.pop_back(); return r;
}
const char *vf_out(void) { return outbuf.c_str(); }
void vf_out_reset(void) { outbuf.clear(); }
void vf_file(const char *n, const char *c) { vfiles[n] = c; }
const char *vf_path(const char *n) { return n; }
char *vf_num(double v, char *b) { strcpy(b, numtext(v).c_str()); return b; }
double vf_parse(const char *s, char **e) { return __rt_strtod(s, e); }
void vf_cover(const char *tag) { path_cover.insert(tag); }
static void cover_commit() {
  for (auto &tag : path_cover) for (int i = 0; i < 64; i++) {
    if (i < S->ncover && tag == S->cover[i].tag) { S->cover[i].n++; break; }
    if (i >= S->ncover) { lock(); if (i < S->ncover) { unlock(); i--; continue; } snprintf(S->cover[i].tag, 64, "%s", tag.c_str()); S->cover[i].n = 1; S->ncover++; unlock(); break; }
  } path_cover.clear(); }
void vf_clock_script(int n, const long *t) { clock_script.assign(t, t + n); clock_i = 0; }
void vf_clock_cb(long (*f)(int)) { clock_cb = f; clock_i = 0; }
int vf_clock_calls(void) { return clock_i; }
int vf_is_concrete(double v) { return !is_sym(v); }
int vf_symbolic(void) { return 1; }
void *vf_poison(void *p, unsigned long n) { return memset(p, 0xAA, n); }
int vf_param(const char *name, int d) {
  const char *e = getenv("VF_PARAMS"); size_t l = strlen(name);
  for (; e && *e; ) { if (!strncmp(e, name, l) && e[l] == '=') return atoi(e + l + 1); e = strchr(e, ','); if (e) e++; }
  return d; }
}

// ---------------------------------------------------------------- driver
struct Seg { char *p; size_t n; char *copy; };
static vector<Seg> segs;
static int phdr_cb(struct dl_phdr_info *i, size_t, void *) {
  if (!i->dlpi_name || !strstr(i->dlpi_name, O.so)) return 0;
  for (int k = 0; k < i->dlpi_phnum; k++) { auto &h = i->dlpi_phdr[k];
    if (h.p_type == PT_LOAD && (h.p_flags & PF_W)) segs.push_back(Seg{(char *)i->dlpi_addr + h.p_vaddr, h.p_memsz, 0}); }
  // exclude relro
  for (int k = 0; k < i->dlpi_phnum; k++) { auto &h = i->dlpi_phdr[k]; if (h.p_type == PT_GNU_RELRO) {
    char *a = (char *)i->dlpi_addr + h.p_vaddr; size_t pg = 4096; char *end = (char *)(((size_t)a + h.p_memsz) & ~(pg - 1));
    for (auto &s : segs) if (s.p <= a && a < s.p + s.n && end > s.p) { size_t cut = std::min((size_t)(end - s.p), s.n); s.p += cut; s.n -= cut; } } }
  return 0; }
static void snapshot() { for (auto &s : segs) { s.copy = (char *)malloc(s.n + 1); memcpy(s.copy, s.p, s.n); } }
static void restore() { for (auto &s : segs) memcpy(s.p, s.copy, s.n); }
static volatile int last_sig;
static void on_sig(int sg, siginfo_t *, void *) {
  if (sg == SIGVTALRM) { if (!in_path || in_solver || in_lock) return; if (S->stop == 1) { in_path = 0; siglongjmp(path_jmp, J_STOP); } if (++hang_ticks < O.hang * 4) return; }
  if (!in_path) _exit(97);
  last_sig = sg; in_path = 0; siglongjmp(path_jmp, J_SIG); }
extern "C" void __asan_set_death_callback(void (*)(void)) __attribute__((weak));
static void asan_death() { if (in_path) { last_sig = 1000; in_path = 0; siglongjmp(path_jmp, J_SIG); } }
static void arm() { struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_usec = it.it_interval.tv_usec = 250000; hang_ticks = 0; setitimer(ITIMER_VIRTUAL, &it, 0); }
static bool backtrack() {
  while (trail.size() > base_) {
    Ev &e = trail.back(); cons.resize(e.nc);
    if (e.kind == DEC) {
      TPOP(); level--;
      if (e.open) { e.open = false; e.taken = !e.taken; TPUSH(); level++; TADD(e.other); model = e.om; cons.push_back(e.olc); return true; }
    } else if (e.kind == CHOICE) {
      TPOP(); level--;
      if (e.open && e.taken + 1 < e.n) { e.taken++; if (e.taken + 1 >= e.n) e.open = false; TPUSH(); level++; model = e.om; return true; }
    }
    trail.pop_back();
  }
  // base_ itself may be a choice with alternatives left (worker that took over a range)
  return false;
}
static void clear_path() {
  tpool.clear(); lins.clear(); fids.clear(); fids.push_back(0); vars.clear(); choices_taken.clear(); known.clear(); auxmemo.clear(); pend.clear(); orset.clear();
  outbuf.clear(); vfiles.clear(); path_cover.clear(); clock_script.clear(); clock_i = 0; clock_cb = 0; tries.clear(); path_inexact = false; pos = 0;
  for (auto f : open_files) fclose(f); open_files.clear();
  heap_reset();
}
static void finish(Shared *) {
  S->tokens++; S->alive--;
}
int main(int argc, char **argv) {
  double budget = 60; int workers = 1; unsigned seed = 1; const char *stats = 0, *entry = "harness"; int nra = 0; O.hang = 15;
  snprintf(O.outdir, sizeof O.outdir, "/tmp");
  for (int i = 1; i + 1 < argc; i += 2) {
    string a = argv[i]; char *v = argv[i + 1];
    if (a == "--so") snprintf(O.so, sizeof O.so, "%s", v); else if (a == "--entry") entry = v; else if (a == "--budget") budget = atof(v);
    else if (a == "--workers") workers = atoi(v); else if (a == "--seed") seed = atoi(v); else if (a == "--stats") stats = v;
    else if (a == "--replay") snprintf(O.replay, sizeof O.replay, "%s", v); else if (a == "--outdir") snprintf(O.outdir, sizeof O.outdir, "%s", v);
    else if (a == "--nra") nra = atoi(v); else if (a == "--hang") O.hang = atoi(v); else if (a == "--poison") O.poison = atoi(v); else if (a == "--mem") O.mem = atoi(v); else if (a == "--wit") O.wit = atoi(v); else if (a == "--nogrid") O.nomodelgrid = atoi(v);
  }
  S = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void *)S, 0, sizeof *S); S->tokens = workers - 1; S->alive = 1;
  void *h = dlopen(O.so, RTLD_NOW | RTLD_GLOBAL);
  if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); return 98; }
  void (*fn)(void) = (void (*)(void))dlsym(h, entry);
  if (!fn) { fprintf(stderr, "no entry %s\n", entry); return 98; }
  { char *rp = realpath(O.so, 0); if (rp) snprintf(O.so, sizeof O.so, "%s", rp); const char *b = strrchr(O.so, '/'); if (b) { string t = b + 1; snprintf(O.so, sizeof O.so, "%s", t.c_str()); } }
  dl_iterate_phdr(phdr_cb, 0); snapshot();
  Z3_global_param_set("model_evaluator.completion", "true");
  Z = new z3::context();
  fresh = !nra;
  if (nra) SV = new z3::solver(*Z); else SV = new z3::solver(z3::solver(*Z, z3::solver::simple()));
  { z3::params p(*Z); p.set("rlimit", nra ? 20000000u : 10000000u); p.set("random_seed", seed & 0xffff); if (!nra) p.set("arith.solver", getenv("VF_AS") ? (unsigned)atoi(getenv("VF_AS")) : 2u); try { SV->set(p); } catch (z3::exception &e) { fprintf(stderr, "z3: %s\n", e.msg()); } }
  rng_state = seed * 7919 + 17; worker_seed = seed;
  double t0 = now(); budget_end = t0 + budget;
  stack_t ss; ss.ss_size = 1 << 18; ss.ss_sp = malloc(ss.ss_size); ss.ss_flags = 0; sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_sig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP, SIGVTALRM}) sigaction(s, &sa, 0);
  if (__asan_set_death_callback) __asan_set_death_callback(asan_death);
  pid_t root = getpid(); prctl(PR_SET_CHILD_SUBREAPER, 1);
  for (;;) {
    clear_path(); restore();
    arm();
    int j = sigsetjmp(path_jmp, 1);
    if (j == 0) { in_path = 1; fn(); in_path = 0; j = sigsetjmp(path_jmp, 1); if (j == 0) { flush_checks(); heap_check(); j = J_DONE; } }
    in_path = 0;
    { struct itimerval it; memset(&it, 0, sizeof it); setitimer(ITIMER_VIRTUAL, &it, 0); }
    if (j == J_DONE) { long k = ++S->paths; if (O.wit && ((k & (k - 1)) == 0 || k % 4096 == 0) && S->nwit < O.wit) { if (!model && zcheck() == z3::sat) model = getmodel(); if (model || vars.empty()) { S->nwit++; write_wit(); } } cover_commit(); if (path_inexact) S->inexact++; }
    else if (j == J_DROP) S->dropped++;
    else if (O.mem && (j == J_DEEP || (j == J_SIG && last_sig == SIGVTALRM))) S->hangs++;
    else if (j == J_SIG || j == J_DEEP) {
      string msg = j == J_DEEP ? "the run does not terminate (decision limit)" : last_sig == SIGVTALRM ? "the run does not terminate (time limit)" :
         last_sig == 1000 ? "memory error (AddressSanitizer)" : string("the program crashes (signal ") + std::to_string(last_sig) + ")";
      if (j == J_DEEP || last_sig == SIGVTALRM) S->hangs++; else S->crashes++;
      pos = trail.size();
      int k = sigsetjmp(path_jmp, 1);
      if (k == 0) { in_path = 1; violation_now(msg); }
      in_path = 0;
    }
    long d = trail.size(); if (d > S->maxdepth) S->maxdepth = d;
    if (S->stop) break;
    if (now() > budget_end) { S->stop = 2; break; }
    if (!backtrack()) break;
    pos = 0;
  }
  finish(S);
  if (getpid() != root) _exit(0);
  while (waitpid(-1, 0, 0) > 0 || errno == EINTR) {}
  double wall = now() - t0;
  FILE *f = stats ? fopen(stats, "w") : stdout;
  string cov; for (int i = 0; i < S->ncover; i++) { cov += string(i ? "," : "") + "\"" + S->cover[i].tag + "\":" + std::to_string((long)S->cover[i].n); }
  string viol; for (char *p = S->violation; *p; p++) { if (*p == '"' || *p == '\\') viol += '\\'; if ((unsigned char)*p >= 32) viol += *p; else viol += ' '; }
  fprintf(f, "{\"status\":\"%s\",\"paths\":%ld,\"dropped\":%ld,\"queries\":%ld,\"sat\":%ld,\"unsat\":%ld,\"unknown\":%ld,\"checks\":%ld,\"check_queries\":%ld,\"forks\":%ld,\"implied\":%ld,\"lp_feasible\":%ld,\"lp_infeasible\":%ld,\"concretised\":%ld,\"inexact_paths\":%ld,\"unconfirmed\":%ld,\"undecided_checks\":%ld,\"maxdepth\":%ld,\"aux\":%ld,\"exits\":%ld,\"hangs\":%ld,\"crashes\":%ld,\"solver_s\":%.3f,\"wall_s\":%.3f,\"cover\":{%s},\"violation\":\"%s\",\"cex\":\"%s\"}\n",
    S->stop == 1 ? "violation" : S->stop == 2 ? "incomplete" : "complete", (long)S->paths, (long)S->dropped, (long)S->queries, (long)S->sat, (long)S->unsat, (long)S->unknown, (long)S->checks, (long)S->checkq, (long)S->forks, (long)S->implied, (long)S->lpyes, (long)S->lpno, (long)S->concretised, (long)S->inexact, (long)S->unconfirmed, (long)S->undecided, (long)S->maxdepth, (long)S->aux, (long)S->exits, (long)S->hangs, (long)S->crashes, S->solver_us / 1e6, wall, cov.c_str(), viol.c_str(), S->replay);
  if (stats) fclose(f);
  return S->stop == 1 ? 1 : 0;
}
