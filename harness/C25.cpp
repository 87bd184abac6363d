// @bounds: populations of up to 6 with every draw; normal draws and covariances of dimension up to 3 (2 fully symbolic); sparse matrices up to 3 by 3; 3 or 4 walkers of dimension 1 to 3, one step (two for the whole sampler), every choice of partner, every draw and every log probability, including non-finite ones; 3, 38 or 41 of 41 integers, 1 or 18 of 20 elements
// @assume: uniform draws of the sampler are in [1/1024, 1023/1024] or 0; log probabilities in [-5,5] where finite; at most two draws in excess of the least number
#define ALBATROSS_CEREAL_SUITESPARSE_H
#define ALBATROSS_CEREAL_SERIALIZABLE_SPQR_H
#include "draws.hpp"
namespace hx {
inline bool pick = false; inline int nint = 0, nreal = 0, nnorm = 0, spare = 99; inline std::vector<double> us, zs; inline std::vector<long> is; inline bool zero_draw = false, given = false; inline int fixed = 0, fixed_ints = 0; // how many draws are fixed values
inline void fresh() { pick = false; nint = nreal = nnorm = 0; spare = 99; us.clear(); zs.clear(); is.clear(); zero_draw = given = false; fixed = fixed_ints = 0; }
inline long whole(long a, long b) { symx::assume(nint < spare); std::string n = "i" + std::to_string(nint++); long r = nint <= fixed_ints ? a + (nint * 17 + 5) % (b - a + 1) : pick ? symx::choose(n.c_str(), (int)a, (int)b) : symx::integer(n.c_str(), (int)a, (int)b); is.push_back(r); return r; }
inline double frac() { static const double some[5] = {0.5, 0.375, 0.75, 0.0625, 0.25}; double r = zero_draw ? 0. : nreal < fixed ? some[nreal % 5] : symx::real(("u" + std::to_string(nreal)).c_str(), 1. / 1024, 1023. / 1024); nreal++; us.push_back(r); return r; }
inline double norm() { double r = given ? (nnorm < (int)zs.size() ? zs[nnorm] : 0.) : symx::real(("z" + std::to_string(nnorm)).c_str(), -4, 4); nnorm++; if (!given) zs.push_back(r); return r; }
} // namespace hx
namespace std {
template <> template <> inline size_t uniform_int_distribution<size_t>::operator()<symx_engine>(symx_engine &, const uniform_int_distribution<size_t>::param_type &p) { return hx::whole(p.a(), p.b()); }
template <> template <> inline long uniform_int_distribution<long>::operator()<symx_engine>(symx_engine &, const uniform_int_distribution<long>::param_type &p) { return hx::whole(p.a(), p.b()); }
template <> template <> inline double uniform_real_distribution<double>::operator()<symx_engine>(symx_engine &, const uniform_real_distribution<double>::param_type &p) { return p.a() + (p.b() - p.a()) * hx::frac(); }
template <> template <> inline double normal_distribution<double>::operator()<symx_engine>(symx_engine &, const normal_distribution<double>::param_type &p) { return p.mean() + p.stddev() * hx::norm(); }
} // namespace std
#include <albatross/GP>
#include <albatross/Samplers>
#include "common.hpp"
using namespace albatross; using namespace hx;
using Rng = std::default_random_engine;
static void eq(double a, double b, const char *l, double tol = 1e-6) { symx::check_eq(a, b, l, tol); }

// ---- sampling without replacement ----
static void integers(int n, int lo, int hi, int known = -1) {
  fresh(); if (known >= 0) { fixed_ints = known; pick = true; } int total = hi - lo + 1; spare = std::min(n, total - n) + 2; if (n > total / 2 + 1) spare = total - n + 2; else spare = n + 2; Rng g; auto r = randint_without_replacement(n, lo, hi, g);
  symx::check(int(r.size()) == n, "as many as asked for"); for (auto x : r) symx::check(x >= size_t(lo) && x <= size_t(hi), "within the bounds"); for (size_t i = 0; i < r.size(); i++) for (size_t j = 0; j < i; j++) symx::check(r[i] != r[j], "no element twice");
  if (n == total) for (int i = 0; i < n; i++) { bool in = false; for (auto x : r) in |= x == size_t(lo + i); symx::check(in, "everything when everything is asked for"); }
}
HARNESS(integers_small) { int lo = symx::choose("low", 0, 2), total = symx::choose("total", 1, 4), n = symx::choose("n", 0, 4); symx::assume(n <= total); integers(n, lo, lo + total - 1); }
HARNESS(integers_large) { int total = symx::choose("total", 5, 6), n = symx::choose("n", 1, 6); symx::assume(n <= total && n != 4 && !(total == 6 && n == 3)); integers(n, 3, 2 + total); }
HARNESS(integers_all_but_one) { int lo = symx::choose("low", 0, 2); integers(5, lo, lo + 5); }
HARNESS(integers_many) { // most of, or few of, many
  int w = symx::choose("which", 0, 2); if (w == 0) integers(38, 4, 44, 2); else if (w == 1) integers(3, 4, 44, 2); else integers(41, 4, 44, 0); }
HARNESS(elements_many) { fresh(); pick = true; int m = 20, n = symx::choose("most", 0, 1) ? 18 : 1; spare = 3; std::vector<std::pair<int, double>> xs; for (int i = 0; i < m; i++) xs.push_back({i, i == 7 ? rl("x7", -5, 5) : 0.5 * i}); auto before = xs; Rng g; auto r = random_without_replacement(xs, n, g); symx::check(int(r.size()) == n, "sample of many has the size asked for"); std::set<int> seen; for (auto &p : r) { symx::check(p.first >= 0 && p.first < m && seen.insert(p.first).second, "a sample of distinct elements of many"); if (p.first < 0 || p.first >= m) return; eq(p.second, before[p.first].second, "an element of many"); } }
HARNESS(elements) { // elements keep their values; every subset can come out
  fresh(); int m = symx::choose("m", 0, 4), n = symx::choose("n", 0, 4); symx::assume(n <= m); spare = n + 2; pick = true; std::vector<std::pair<int, double>> xs; for (int i = 0; i < m; i++) xs.push_back({i, rl(nm("x", i), -5, 5)}); auto before = xs; Rng g; auto r = random_without_replacement(xs, n, g);
  symx::check(int(r.size()) == n, "sample has the size asked for"); std::vector<char> seen(m + 1, 0); for (auto &p : r) { symx::check(p.first >= 0 && p.first < m && !seen[p.first], "a sample of distinct elements"); if (p.first < 0 || p.first >= m) return; seen[p.first] = 1; eq(p.second, before[p.first].second, "an element of the population"); }
}
HARNESS(every_pair) { // the draws decide the sample: each pair of 4 comes out for some draws
  fresh(); pick = true; spare = 2; Rng g; auto r = randint_without_replacement(2, 0, 3, g); symx::check(r.size() == 2 && is.size() == 2, "two draws, two elements"); if (r.size() != 2) return;
  bool a = std::find(r.begin(), r.end(), size_t(is[0])) != r.end(), b = std::find(r.begin(), r.end(), size_t(is[1])) != r.end(); symx::check(a && b, "the drawn elements are the sample");
}
HARNESS(other_than) { fresh(); int n = symx::choose("n", 2, 4), i = symx::choose("i", 0, 3); symx::assume(i < n); spare = 3; Rng g; size_t r = random_complement(n, i, g); symx::check(r < size_t(n) && r != size_t(i), "an index other than the given one"); }
HARNESS(splits) { int n = symx::choose("n", 1, 6), k = symx::choose("k", 1, 3); auto s = split_indices(n, k); std::vector<int> c(n, 0); for (auto &g : s) { symx::check(!g.empty(), "no empty split"); for (auto i : g) { symx::check(i < size_t(n), "an index"); if (i < size_t(n)) c[i]++; } } bool once = true; for (int x : c) once &= x == 1; symx::check(once, "each index in exactly one split"); symx::check(int(s.size()) == std::min(n, k), "as many splits as asked for"); }

// ---- random matrices ----
HARNESS(fill) {
  fresh(); Rng g; int r = symx::choose("r", 0, 3), c = symx::choose("c", 0, 2); double m = rl("m", -3, 3), s = rl("s", 0.125, 3); Mat A(r, c); gaussian_fill(A, m, s, g); symx::check(A.rows() == r && A.cols() == c, "shape kept"); symx::check(nnorm == r * c, "one draw per entry"); if (nnorm != r * c) return;
  Vec used = Vec::Zero(r * c); double sum = 0, want = 0; for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { sum += A(i, j); want += m + s * zs[i + r * j]; } eq(sum, want, "entries are mean plus deviation times draw"); if (r == 1 && c == 1) eq(A(0, 0), m + s * zs[0], "entry");
  if (r == 3 && c == 1) for (int i = 0; i < 3; i++) eq(A(i, 0), m + s * zs[i], "vector entry");
}
HARNESS(standard_fill) { fresh(); Rng g; Vec v(3); gaussian_fill(v, g); symx::check(v.size() == 3 && nnorm == 3, "size"); if (nnorm != 3) return; for (int i = 0; i < 3; i++) eq(v[i], zs[i], "standard draws by default"); }
static Vec with(const Vec &mean, const Mat &C, std::vector<double> z) { fresh(); given = true; zs = z; Rng g; return random_multivariate_normal(mean, C, g); }
static void square_root(const Mat &C, double tol) {
  int n = C.rows(); Vec mean = vec("mean", n), z = vec("w", n, -3, 3); Mat L(n, n); for (int i = 0; i < n; i++) { std::vector<double> e(n, 0.); e[i] = 1; L.col(i) = with(mean, C, e) - mean; }
  Mat P = L * L.transpose(); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) eq(P(i, j), C(i, j), "outer product of the draw's square root is the covariance", tol);
  std::vector<double> zz(z.data(), z.data() + n); Vec s = with(mean, C, zz); for (int i = 0; i < n; i++) { double want = mean[i]; for (int j = 0; j < n; j++) want += L(i, j) * z[j]; eq(s[i], want, "mean plus the square root times the draws", tol); }
  symx::check(nnorm == n, "one standard draw per dimension");
}
HARNESS(normal_1) { Mat C(1, 1); C << rl("a", 0.1, 4); square_root(C, 1e-6); }
HARNESS(normal_2) { Mat C(2, 2); C << rl("a", 0.2, 4), 0, 0, rl("b", 0.2, 4); C(0, 1) = C(1, 0) = rl("c", -2, 2); assume_pd(C); square_root(C, 1e-6); }
HARNESS(normal_3) { Mat C(3, 3); C << 4, 2, 1, 2, 2, -0.5, 1, -0.5, 5.25; square_root(C, 1e-6); }
HARNESS(normal_no_mean) { Mat C(2, 2); C << 4, 2, 2, 5; fresh(); Rng g; Vec s = random_multivariate_normal(C, g); symx::check(s.size() == 2 && nnorm == 2, "size"); if (nnorm != 2) return; std::vector<double> z = zs; Vec t = with(Vec::Zero(2), C, z); eq(s[0], t[0], "zero mean by default"); eq(s[1], t[1], "zero mean by default, second"); }
namespace { struct Given { double v[3]; int i = 0; template <class R> double operator()(R &) { return v[i++ % 3]; } }; }
HARNESS(covariance) {
  fresh(); given = true; int n = symx::choose("n", 1, 3); zs = {0.5, -1.25, 2, 0.25, 1, -0.5, 1.5, 0.75, -1}; Given d; for (int i = 0; i < 3; i++) d.v[i] = rl(nm("d", i), 0, 4); Rng g; Mat C = random_covariance_matrix(n, d, g); symx::check(C.rows() == n && C.cols() == n, "square of the size asked for");
  double t = 0, tr = 0, sq = 0, fr = 0; for (int i = 0; i < n; i++) { t += d.v[i]; sq += d.v[i] * d.v[i]; tr += C(i, i); for (int j = 0; j < n; j++) { fr += C(i, j) * C(i, j); eq(C(i, j), C(j, i), "symmetric", 1e-5); } } eq(tr, t, "trace is the sum of the drawn eigenvalues", 1e-5); eq(fr, sq, "norm is that of the drawn eigenvalues", 1e-4);
  if (n == 3) { double dt = C(0, 0) * (C(1, 1) * C(2, 2) - C(1, 2) * C(2, 1)) - C(0, 1) * (C(1, 0) * C(2, 2) - C(1, 2) * C(2, 0)) + C(0, 2) * (C(1, 0) * C(2, 1) - C(1, 1) * C(2, 0)); eq(dt, d.v[0] * d.v[1] * d.v[2], "determinant is the product of the drawn eigenvalues", 1e-4); }
}
HARNESS(sparse) {
  fresh(); pick = true; int r = symx::choose("r", 1, 3), c = symx::choose("c", 1, 2), f = symx::choose("f", 0, 2); static const double fills[3] = {0, 0.5, 1}; int want = int(double(r) * (double(c) * fills[f])); symx::assume(want <= 3); spare = 2 * want + 2; Rng g; double lo = rl("lo", -9, 0), hi = rl("hi", 1, 9);
  auto S = random_sparse_matrix<double>(r, c, fills[f], g, lo, hi); symx::check(S.rows() == r && S.cols() == c, "shape asked for"); symx::check(int(S.nonZeros()) == want, "share of filled entries"); for (int k = 0; k < S.outerSize(); k++) for (Eigen::SparseMatrix<double>::InnerIterator it(S, k); it; ++it) symx::check(it.value() >= lo - 1e-9 && it.value() <= hi + 1e-9, "values in the range");
}

// ---- ensemble sampler ----
namespace { struct Call { std::vector<double> p; double lp; }; static std::vector<Call> calls; static int odd = 0;
static double value(int i) { int k = odd ? symx::choose(nm("kind", i).c_str(), 0, odd) : 0; return k == 0 ? rl(nm("lp", i), -5, 5) : k == 1 ? -INFINITY : k == 2 ? double(NAN) : INFINITY; }
struct Density { double operator()(const std::vector<double> &p) { double v = value(100 + int(calls.size())); calls.push_back({p, v}); return v; } }; }
static EnsembleSamplerState walkers(int n, int d, int kinds = 0) { EnsembleSamplerState e; for (int k = 0; k < n; k++) { SamplerState s; for (int i = 0; i < d; i++) s.params.push_back(rl(nm("x", k, i), 10 * k, 10 * k + 5)); int kd = kinds ? symx::choose(nm("start", k).c_str(), 0, kinds) : 0; s.log_prob = kd == 0 ? rl(nm("l", k), -5, 5) : kd == 1 ? -INFINITY : kd == 2 ? double(NAN) : INFINITY; s.accepted = true; e.push_back(s); } return e; }
static void same(const SamplerState &a, const SamplerState &b, const char *l) { symx::check(a.params.size() == b.params.size(), "dimension"); if (a.params.size() != b.params.size()) return; for (size_t i = 0; i < a.params.size(); i++) eq(a.params[i], b.params[i], l); eq(a.log_prob, b.log_prob, "log probability goes with its position"); }
// replays the step that was recorded in (calls, us, is) from `cur`
static void replay(EnsembleSamplerState cur, const EnsembleSamplerState &out, size_t &c, size_t &u, size_t &i, double a = 2, int splits = 2) {
  int n = cur.size(), d = cur[0].params.size(); symx::check(int(out.size()) == n, "as many walkers as before"); if (int(out.size()) != n) return;
  for (int s = 0; s < splits; s++) { std::vector<int> comp; for (int k = 0; k < n; k++) if (k % splits != s) comp.push_back(k);
    for (int k = s; k < n; k += splits) {
      bool there = c < calls.size() && u + 1 < us.size() && i < is.size(); symx::check(there, "each walker proposes once"); if (!there) return;
      long jj = is[i++]; symx::check(jj >= 0 && jj < long(comp.size()), "partner is in the other half"); if (jj < 0 || jj >= long(comp.size())) return; const auto &xj = cur[comp[jj]].params; double p = us[u++], r = us[u++], b = (a - 1) * p + 1, z = b * b / a; const Call &call = calls[c++];
      symx::check(int(call.p.size()) == d, "proposal has the dimension"); if (int(call.p.size()) != d) return;
      for (int q = 0; q < d; q++) { double delta = cur[k].params[q] - xj[q]; if (delta == 0) symx::check(std::abs(call.p[q] - xj[q]) <= 1e-5, "small move between equal walkers"); else eq(call.p[q], xj[q] + z * delta, "proposal on the line through both walkers"); }
      bool ok = std::isfinite(call.lp); if (ok) { double diff = (d - 1) * std::log(z) + call.lp - cur[k].log_prob; ok = r == 0 ? true : diff > std::log(r); }
      if (ok) { SamplerState w; w.params = call.p; w.log_prob = call.lp; w.accepted = true; cur[k] = w; } else cur[k].accepted = false;
      symx::check(out[k].accepted == ok, "accepts exactly when the ratio exceeds the draw"); same(out[k], cur[k], ok ? "moves to the accepted proposal" : "stays when not accepted");
    } }
}
static void step(int n, int d, double a = 2, int splits = 2) { fresh(); pick = true; calls.clear(); auto e = walkers(n, d); Rng g; auto out = stretch_move_step(e, Density(), g, splits, a); size_t c = 0, u = 0, i = 0; replay(e, out, c, u, i, a, splits); symx::check(c == calls.size(), "no further proposal"); }
HARNESS(step_1) { odd = 0; step(3, 1); }
HARNESS(step_2) { odd = 0; step(3, 2); }
HARNESS(step_3) { odd = 0; step(2, 3); }
HARNESS(step_wide) { odd = 0; step(3, 2, 4); }
HARNESS(step_three_splits) { odd = 0; step(3, 1, 2, 3); }
HARNESS(step_four) { // fixed positions and draws, every density
  odd = 0; fresh(); pick = true; fixed = 8; calls.clear(); auto e = walkers(4, 1); for (int k = 0; k < 4; k++) e[k].params[0] = 3 * k * k - 2; Rng g; auto out = stretch_move_step(e, Density(), g); size_t c = 0, u = 0, i = 0; replay(e, out, c, u, i); }
HARNESS(step_impossible) { odd = 3; step(2, 2); }
HARNESS(step_zero_draw) { odd = 2; fresh(); pick = true; zero_draw = true; calls.clear(); auto e = walkers(2, 2); Rng g; auto out = stretch_move_step(e, Density(), g); size_t c = 0, u = 0, i = 0; replay(e, out, c, u, i); }
HARNESS(step_equal) { // walkers at the same place still move
  odd = 0; fresh(); pick = true; calls.clear(); auto e = walkers(2, 2); e[1].params[0] = e[0].params[0]; Rng g; auto out = stretch_move_step(e, Density(), g); size_t c = 0, u = 0, i = 0; replay(e, out, c, u, i);
}
HARNESS(step_close) { // walkers next to each other: the move is in proportion to their distance, however small
  odd = 0; fresh(); pick = true; calls.clear(); auto e = walkers(2, 1); double d = rl("delta", -1e-5, 1e-5); symx::assume(d > 1e-7 || d < -1e-7); e[1].params[0] = e[0].params[0] + d; Rng g; auto out = stretch_move_step(e, Density(), g); symx::check(calls.size() == 2 && us.size() == 4, "each walker proposes once"); if (calls.size() != 2 || us.size() != 4) return;
  double b = us[0] + 1, z = b * b / 2; eq((calls[0].p[0] - e[1].params[0]) * 1e6, -z * d * 1e6, "proposal on the line through both walkers"); b = us[2] + 1; z = b * b / 2; double x = out[0].params[0]; eq((calls[1].p[0] - x) * 1e6, z * (e[1].params[0] - x) * 1e6, "proposal of the second on the line through both walkers");
}
HARNESS(whole) { // the draws of the first step are fixed
  odd = 0; fresh(); pick = true; fixed = 7; calls.clear(); auto e = walkers(3, 1); for (int k = 0; k < 3; k++) e[k].params[0] = 3 * k * k - 2; Rng g; std::vector<size_t> at; std::vector<EnsembleSamplerState> told; auto cb = [&](size_t i, const EnsembleSamplerState &s) { at.push_back(i); told.push_back(s); }; auto out = ensemble_sampler(Density(), e, 2, g, cb);
  symx::check(out.size() == 3 && at.size() == 3, "initial state and one state per iteration"); if (out.size() != 3 || told.size() != 3) return; for (int k = 0; k < 3; k++) same(out[0][k], e[k], "starts where told");
  size_t c = 0, u = 0, i = 0; replay(out[0], out[1], c, u, i); replay(out[1], out[2], c, u, i); symx::check(c == calls.size(), "no further proposal"); for (size_t t = 0; t < 3; t++) { symx::check(at[t] == t, "callback after each iteration"); for (int k = 0; k < 3; k++) same(told[t][k], out[t][k], "callback sees the state"); }
}
HARNESS(no_iterations) { odd = 0; fresh(); calls.clear(); std::vector<std::vector<double>> p; for (int k = 0; k < 3; k++) p.push_back({rl(nm("a", k), -5, 5), rl(nm("b", k), -5, 5)}); Rng g; auto out = ensemble_sampler(Density(), p, 0, g); symx::check(out.size() == 1 && out[0].size() == 3 && calls.size() == 3, "one state, one density per walker"); if (out.size() != 1 || out[0].size() != 3 || calls.size() != 3) return; for (int k = 0; k < 3; k++) { eq(out[0][k].params[0], p[k][0], "position of each walker"); eq(out[0][k].params[1], p[k][1], "position of each walker, second"); eq(out[0][k].log_prob, calls[k].lp, "density of each walker"); } }
HARNESS(replaces_impossible) { // walkers which start at impossible positions are replaced by mixtures of possible ones
  odd = 2; fresh(); pick = true; calls.clear(); auto e = walkers(4, 2); int bad = symx::choose("bad", 0, 3); int kind = symx::choose("how", 0, 3); symx::assume(bad == 1 || kind == 0); if (kind == 0) e[bad].log_prob = -INFINITY; if (kind == 1) e[bad].log_prob = NAN; if (kind == 2) e[bad].params[1] = INFINITY; Rng g; spare = 4; auto f = [](const std::vector<double> &p) { symx::assume(calls.size() < 2); return Density()(p); };
  auto out = ensure_finite_initial_state(f, e, g); symx::check(out.size() == 4, "as many walkers"); if (out.size() != 4) return; size_t o = 0; for (int k = 0; k < 4; k++) if (kind == 3 || k != bad) same(out[o++], e[k], "possible walkers are kept");
  if (kind == 3) { symx::check(calls.empty(), "nothing to replace"); return; } const auto &w = out[3]; symx::check(std::isfinite(w.log_prob), "replacement is possible"); symx::check(!calls.empty(), "density evaluated"); if (calls.empty()) return; eq(w.log_prob, calls.back().lp, "density of the replacement"); for (int q = 0; q < 2; q++) { eq(w.params[q], calls.back().p[q], "position whose density was taken"); double lo = 1e9, hi = -1e9; for (int k = 0; k < 4; k++) if (k != bad) { lo = std::min(lo, e[k].params[q]); hi = std::max(hi, e[k].params[q]); } symx::check(w.params[q] >= lo - 1e-9 && w.params[q] <= hi + 1e-9, "between the possible walkers"); }
}
HARNESS(jitter) {
  fresh(); int np = symx::choose("np", 1, 2), n = symx::choose("n", 0, 6); ParameterStore s; s["a"] = Parameter(rl("va", -3, 3)); if (np == 2) { s["b"] = Parameter(7.5); s["b"].prior = FixedPrior(); s["c"] = Parameter(rl("vc", -3, 3)); } std::normal_distribution<double> j(0., 0.5); Rng g; auto r = initial_params_from_jitter(s, j, g, n); symx::check(int(r.size()) >= n && r.size() >= 3, "at least as many as asked for"); if (r.empty()) return;
  auto t = get_tunable_parameters(s).values; size_t z = 0; for (size_t k = 0; k < r.size(); k++) { symx::check(r[k].size() == t.size(), "tunable parameters only"); if (r[k].size() != t.size()) return; for (size_t q = 0; q < t.size(); q++) { if (k > 0) symx::check(z < zs.size(), "a draw for each value"); if (k > 0 && z >= zs.size()) return; eq(r[k][q], k == 0 ? t[q] : t[q] + 0.5 * zs[z++], k == 0 ? "first walker is the given one" : "others are the given one plus a draw"); } }
}
namespace { struct Model { ParameterStore s; ParameterStore get_params() const { return s; } void set_tunable_params_values(const std::vector<double> &v) { s = albatross::set_tunable_params_values(s, v); } double log_likelihood(const RegressionDataset<Pt> &d) const { double a = s.at("a").value; return -a * a + d.targets.mean[0]; } }; }
HARNESS(model) {
  fresh(); pick = true; Model m; m.s["a"] = Parameter(rl("va", -2, 2)); m.s["z"] = Parameter(4.); m.s["z"].prior = FixedPrior(); Vec y = vec("y", 1); RegressionDataset<Pt> d(pts(0, 1), y); Rng g; auto out = ensemble_sampler(m, d, 5, 0, g); symx::check(out.size() == 1 && out[0].size() == 5, "walkers asked for"); if (out.empty()) return; for (auto &s : out[0]) { symx::check(s.params.size() == 1, "tunable parameters"); if (s.params.size() != 1) return; eq(s.log_prob, -s.params[0] * s.params[0] + y[0], "log likelihood at the walker's parameters"); } eq(m.s.at("a").value, symx::real("va2", 0, 0) + out[0][0].params[0], "model itself is not changed");
}
HARNESS(complement) { fresh(); pick = true; int n = symx::choose("n", 2, 4), i = symx::choose("i", 0, 3); symx::assume(i < n); spare = 3; Rng g; auto r = random_complement(size_t(n), size_t(i), g); symx::check(r < size_t(n) && r != size_t(i), "another index"); symx::check(!is.empty() ? r == size_t(is.back()) : true, "the last one drawn"); for (size_t k = 0; k + 1 < is.size(); k++) symx::check(is[k] == i, "drawn again only for the index itself"); }
