// @bounds: every pair of key sets out of 4 keys with every value (every two keys of two maps fully symbolic), in ascending, descending and unordered maps; vectors of up to 3 entries per part with every value; stacks of up to 3 blocks; truncated solves of fixed 3 by 3 matrices of rank 1 to 3 with every right hand side; maps of 30 keys
// @assume: values are numbers (not NaN); evenly spaced ranges have at least one point and stacks at least one block; both containers of one call are ordered by the same comparator
#define ALBATROSS_CEREAL_SUITESPARSE_H
#define ALBATROSS_CEREAL_SERIALIZABLE_SPQR_H
#include <albatross/Core>
#include <albatross/Indexing>
#include <albatross/utils/MapUtils>
#include <albatross/src/utils/vector_utils.hpp>
#include <albatross/src/utils/eigen_utils.hpp>
#include <unordered_map>
#include "common.hpp"
using namespace albatross; using namespace hx;
static void eq(double a, double b, const char *l, double tol = 1e-9) { symx::check_eq(a, b, l, tol); }
template <class M> static M build(const char *n, int mask, int bits = 4) { M m; for (int i = 0; i < bits; i++) if (mask >> i & 1) m[i] = rl(nm(n, i), -9, 9); return m; }
template <class M> static bool has(const M &m, int k) { for (auto &kv : m) if (kv.first == k) return true; return false; }
template <class M> static double val(const M &m, int k) { for (auto &kv : m) if (kv.first == k) return kv.second; return 1e9; }
// result holds key i exactly when want[i], with value v[i]
template <class M> static void is(const M &m, const bool *want, const double *v, const char *l) { size_t n = 0; for (int i = 0; i < 4; i++) { n += want[i]; symx::check(has(m, i) == want[i], l); if (want[i] && has(m, i)) eq(val(m, i), v[i], l); } symx::check(m.size() == n, l); auto c = m.key_comp(); bool first = true; int prev = 0; for (auto &kv : m) { if (!first) symx::check(c(prev, kv.first), "kept in order"); prev = kv.first; first = false; } }
struct KeyedSum { double operator()(const int &k, const double &a, const double &b) const { return 100 * k + a - 2 * b; } };
struct Diff { double operator()(const double &a, const double &b) const { return a - 2 * b; } };
template <class Cmp> static void sets() {
  using M = std::map<int, double, Cmp>; int p = symx::choose("a", 0, 15), q = symx::choose("b", 0, 15); M a = build<M>("a", p), b = build<M>("b", q); const M a0 = a, b0 = b; bool w[4]; double v[4]; auto in = [](int m, int i) { return bool(m >> i & 1); };
  for (int i = 0; i < 4; i++) { w[i] = in(p, i) && !in(q, i); v[i] = val(a, i); } is(map_difference(a, b), w, v, "difference: what only the first holds"); auto dk = map_difference_keys(a, b); size_t n = 0; for (int i = 0; i < 4; i++) { n += w[i]; symx::check(vector_contains(dk, i) == w[i], "keys of the difference"); } symx::check(dk.size() == n && std::is_sorted(dk.begin(), dk.end(), Cmp()), "keys of the difference, in order");
  for (int i = 0; i < 4; i++) { w[i] = in(p, i) != in(q, i); v[i] = in(p, i) ? val(a, i) : val(b, i); } is(map_symmetric_difference(a, b), w, v, "symmetric difference: what exactly one holds");
  for (int i = 0; i < 4; i++) { w[i] = in(p, i) || in(q, i); v[i] = in(p, i) ? val(a, i) : val(b, i); } is(map_union(a, b), w, v, "union: the first's value where both hold the key");
  for (int i = 0; i < 4; i++) v[i] = in(q, i) ? val(b, i) : val(a, i); is(map_join(a, b), w, v, "join: the second's value where both hold the key"); is(map_union(a, b, ReturnRight()), w, v, "union with the second's value");
  for (int i = 0; i < 4; i++) v[i] = in(p, i) && in(q, i) ? val(a, i) - 2 * val(b, i) : in(p, i) ? val(a, i) : val(b, i); is(map_union(a, b, Diff()), w, v, "union merged by the values");
  for (int i = 0; i < 4; i++) if (in(p, i) && in(q, i)) v[i] += 100 * i; is(map_union(a, b, KeyedSum()), w, v, "union merged by key and values");
  for (int i = 0; i < 4; i++) { w[i] = in(p, i) && in(q, i); v[i] = val(a, i); } is(map_intersect(a, b, ReturnLeft()), w, v, "intersection with the first's value"); auto pairs = map_intersect(a, b); n = 0; for (auto &kv : pairs) { n++; symx::check(in(p & q, kv.first), "intersection: what both hold"); eq(kv.second.first, val(a, kv.first), "intersection pairs the first's value"); eq(kv.second.second, val(b, kv.first), "intersection pairs the second's value"); } auto ik = map_intersect_keys(a, b); size_t m = 0; for (int i = 0; i < 4; i++) { m += w[i]; symx::check(vector_contains(ik, i) == w[i], "keys of the intersection"); } symx::check(n == m && ik.size() == m, "size of the intersection");
  for (int i = 0; i < 4; i++) v[i] = val(b, i); is(map_intersect(a, b, ReturnRight()), w, v, "intersection with the second's value"); for (int i = 0; i < 4; i++) v[i] = val(a, i) - 2 * val(b, i); is(map_intersect(a, b, Diff()), w, v, "intersection merged by the values"); for (int i = 0; i < 4; i++) v[i] += 100 * i; is(map_intersect(a, b, KeyedSum()), w, v, "intersection merged by key and values");
  std::set<int, Cmp> s; std::vector<int> sv; for (int i = 0; i < 4; i++) if (in(q, i)) s.insert(i); for (int i : s) sv.push_back(i); for (int i = 0; i < 4; i++) { w[i] = in(p & q, i); v[i] = val(a, i); } is(map_subset(a, s), w, v, "subset: the named keys"); is(map_subset_sorted(a, sv), w, v, "subset of a sorted list"); std::vector<int> twice; for (int i : sv) { twice.push_back(i); twice.push_back(i); } is(map_subset_sorted(a, twice), w, v, "subset of a list with repeated keys");
  symx::check(a.size() == a0.size() && b.size() == b0.size(), "arguments unchanged");
}
HARNESS(sets_ascending) { sets<std::less<int>>(); }
HARNESS(sets_descending) { sets<std::greater<int>>(); }
HARNESS(symbolic_keys) {
  using M = std::map<int, double>; M a, b; int ka[2], kb[2]; for (int i = 0; i < 2; i++) { ka[i] = symx::integer(nm("ka", i).c_str(), -5, 5); kb[i] = symx::integer(nm("kb", i).c_str(), -5, 5); } symx::assume(ka[0] < ka[1] && kb[0] < kb[1]); for (int i = 0; i < 2; i++) { a[ka[i]] = rl(nm("va", i), -9, 9); b[kb[i]] = rl(nm("vb", i), -9, 9); }
  int k = symx::integer("k", -5, 5); bool ina = k == ka[0] || k == ka[1], inb = k == kb[0] || k == kb[1]; int w = symx::choose("which", 0, 4); M r = w == 0 ? map_difference(a, b) : w == 1 ? map_symmetric_difference(a, b) : w == 2 ? map_union(a, b) : w == 3 ? map_join(a, b) : map_intersect(a, b, ReturnLeft()); bool want = w == 0 ? ina && !inb : w == 1 ? ina != inb : w == 4 ? ina && inb : ina || inb; symx::check(map_contains(r, k) == want, "holds exactly the keys of its definition"); if (want && map_contains(r, k)) { bool left = w == 3 ? !inb : ina; double va = k == ka[0] ? a[ka[0]] : a[ka[1]], vb = k == kb[0] ? b[kb[0]] : b[kb[1]]; eq(map_at_or(r, k), left ? va : vb, "each key with its own value"); }
}
HARNESS(look_up) {
  using M = std::map<int, double>; int p = symx::choose("a", 0, 15), k = symx::integer("k", -1, 4); M m = build<M>("a", p); double d = rl("d", -9, 9); bool in = k >= 0 && k < 4 && (p >> k & 1); symx::check(map_contains(m, k) == in, "contains"); double g = map_at_or(m, k, d), z = map_at_or(m, k); if (in) { eq(g, val(m, k), "value of the key"); eq(z, val(m, k), "value of the key, no alternative"); } else { eq(g, d, "alternative where the key is missing"); eq(z, 0, "default where the key is missing"); } symx::check(m.size() == size_t(__builtin_popcount(p)), "looking up adds nothing");
  auto ks = map_keys(m); auto vs = map_values(m); symx::check(ks.size() == m.size() && vs.size() == m.size(), "as many keys and values as entries"); size_t i = 0; for (auto &kv : m) { if (i >= ks.size() || i >= vs.size()) return; symx::check(ks[i] == kv.first, "keys in order"); eq(vs[i], kv.second, "values in the keys' order"); i++; }
}
HARNESS(unordered) { using M = std::unordered_map<int, double>; int p = symx::choose("a", 0, 7), q = symx::choose("b", 0, 7); M a = build<M>("a", p, 3), b = build<M>("b", q, 3); M j = map_join(a, b); symx::check(j.size() == size_t(__builtin_popcount(p | q)), "size of the join"); for (int i = 0; i < 3; i++) { symx::check(map_contains(j, i) == bool((p | q) >> i & 1), "keys of the join"); eq(map_at_or(j, i, 50.), q >> i & 1 ? val(b, i) : p >> i & 1 ? val(a, i) : 50., "values of the join"); } auto ks = map_keys(j); auto vs = map_values(j); symx::check(ks.size() == j.size() && vs.size() == j.size(), "listing"); for (size_t i = 0; i < ks.size() && i < vs.size(); i++) eq(vs[i], val(j, ks[i]), "keys and values in the same order"); }
HARNESS(strict_join) { using M = std::map<int, double>; int p = symx::choose("a", 0, 15), q = symx::choose("b", 0, 15); M a = build<M>("a", p), b = build<M>("b", q); symx::check(map_join(a, b).size() == size_t(__builtin_popcount(p | q)), "reached"); if (p & q) symx_allow_abort_(1); M j = map_join_strict(a, b); symx::check(!(p & q), "shared keys are refused"); symx::check(j.size() == a.size() + b.size(), "all entries"); for (int i = 0; i < 4; i++) { if (p >> i & 1) eq(map_at_or(j, i), val(a, i), "first's entries"); if (q >> i & 1) eq(map_at_or(j, i), val(b, i), "second's entries"); } }
HARNESS(unsorted_subset) { using M = std::map<int, double>; M m = build<M>("a", 7); int x = symx::integer("x", 0, 3), y = symx::integer("y", 0, 3), z = symx::integer("z", 0, 3); std::vector<int> k = {x, y, z}; bool sorted = x <= y && y <= z; symx::check(map_at_or(m, 3, 4.) == 4, "reached"); if (!sorted) symx_allow_abort_(1); M r = map_subset_sorted(m, k); symx::check(sorted, "keys that are not sorted are refused"); for (int i = 0; i < 3; i++) symx::check(map_contains(r, i) == (x == i || y == i || z == i), "subset of the sorted keys"); }
// ---- vectors ----
HARNESS(even_spacing) { double a = rl("a", -5, 5), b = rl("b", -5, 5); int n = symx::choose("n", 1, 6); auto x = linspace(a, b, n); symx::check(int(x.size()) == n, "as many points as asked for"); if (int(x.size()) != n || !n) return; eq(x[0], a, "starts at the first end"); if (n > 1) eq(x[n - 1], b, "ends at the second end", 1e-6); for (int i = 0; i < n && n > 1; i++) eq(x[i], a + (b - a) * i / (n - 1), "evenly spaced", 1e-6); }
HARNESS(quantifiers) { int n = symx::choose("n", 0, 4); std::vector<bool> x; int c = 0; for (int i = 0; i < n; i++) { bool t = symx::integer(nm("x", i).c_str(), 0, 1) == 1; x.push_back(t); c += t; } symx::check(albatross::all(x) == (c == n), "all"); symx::check(albatross::any(x) == (c > 0), "any"); }
HARNESS(membership) { int n = symx::choose("n", 0, 4); std::vector<double> x; bool in = false; double y = rl("y", -3, 3); for (int i = 0; i < n; i++) { x.push_back(rl(nm("x", i), -3, 3)); if (x[i] == y) in = true; } symx::check(vector_contains(x, y) == in, "contains"); }
HARNESS(concatenation) {
  int n = symx::choose("n", 0, 3), m = symx::choose("m", 0, 3); std::vector<double> a, b; for (int i = 0; i < n; i++) a.push_back(rl(nm("a", i), -5, 5)); for (int i = 0; i < m; i++) b.push_back(rl(nm("b", i), -5, 5)); auto c = concatenate(a, b); auto d = concatenate(std::vector<std::vector<double>>{a, b, a}); Vec va = n ? Vec(Eigen::Map<Vec>(a.data(), n)) : Vec(0), vb = m ? Vec(Eigen::Map<Vec>(b.data(), m)) : Vec(0); Vec e = concatenate(va, vb); symx::check(int(c.size()) == n + m && e.size() == n + m && int(d.size()) == 2 * n + m, "length is the sum of the lengths"); if (int(c.size()) != n + m || e.size() != n + m || int(d.size()) != 2 * n + m) return; for (int i = 0; i < n + m; i++) { double w = i < n ? a[i] : b[i - n]; eq(c[i], w, "first then second"); eq(e[i], w, "first then second, vectors"); eq(d[i], w, "parts in order"); if (i < n) eq(d[n + m + i], a[i], "last part"); }
}
HARNESS(concatenation_mixed) {
  int n = symx::choose("n", 0, 2), m = symx::choose("m", 0, 2); std::vector<double> a; std::vector<int> b; for (int i = 0; i < n; i++) a.push_back(rl(nm("a", i), -5, 5)); for (int i = 0; i < m; i++) b.push_back(symx::integer(nm("b", i).c_str(), -5, 5)); auto judge = [&](const variant<double, int> &x, int i) { bool isd = x.template is<double>(); symx::check(isd == (i < n), "type kept"); if (isd && i < n) eq(x.template get<double>(), a[i], "value kept"); if (!isd && i >= n) symx::check(x.template get<int>() == b[i - n], "whole value kept"); };
  std::vector<variant<double, int>> c = concatenate(a, b); symx::check(int(c.size()) == n + m, "length"); for (size_t i = 0; i < c.size(); i++) judge(c[i], i); std::vector<variant<double, int>> va(a.begin(), a.end()), vb(b.begin(), b.end()); auto d = concatenate(va, b), e = concatenate(a, vb); symx::check(int(d.size()) == n + m && int(e.size()) == n + m, "length of mixed lists"); for (size_t i = 0; i < d.size(); i++) judge(d[i], i); for (size_t i = 0; i < e.size(); i++) judge(e[i], i); auto g = concatenate(va, vb); symx::check(int(g.size()) == n + m, "length of variant lists"); for (size_t i = 0; i < g.size(); i++) judge(g[i], i);
  std::vector<variant<int, Pt>> vp; for (int i = 0; i < m; i++) vp.push_back(Pt{b[i]}); auto h = concatenate(a, vp); symx::check(int(h.size()) == n + m, "length with a new type"); for (size_t i = 0; i < h.size(); i++) { bool isd = h[i].template is<double>(); symx::check(isd == (int(i) < n), "new type kept"); if (isd) eq(h[i].template get<double>(), a[i], "new value kept"); else symx::check(h[i].template get<Pt>().id == b[i - n], "old value kept"); } auto k = concatenate(vp, a); symx::check(int(k.size()) == n + m, "length with a new type last"); for (size_t i = 0; i < k.size(); i++) { bool isd = k[i].template is<double>(); symx::check(isd == (int(i) >= m), "new type last"); if (isd) eq(k[i].template get<double>(), a[i - m], "new value last"); else symx::check(k[i].template get<Pt>().id == b[i], "old value first"); }
}
HARNESS(stack) {
  int blocks = symx::choose("blocks", 1, 3), cols = symx::choose("cols", 0, 2); std::vector<Mat> b; int rows = 0; for (int k = 0; k < blocks; k++) { int r = symx::choose(nm("rows", k).c_str(), 0, 2); Mat A(r, cols); for (int i = 0; i < r; i++) for (int j = 0; j < cols; j++) A(i, j) = rl(nm("x", 4 * k + i, j), -5, 5); b.push_back(A); rows += r; } Mat s = vertical_stack(b); symx::check(s.rows() == rows && s.cols() == cols, "shape of the stack"); if (s.rows() != rows || s.cols() != cols) return; int at = 0; for (auto &A : b) for (int i = 0; i < A.rows(); i++, at++) for (int j = 0; j < cols; j++) eq(s(at, j), A(i, j), "blocks below each other");
  std::vector<Vec> v; Vec x = vec("v", 2), y = vec("w", 1); v.push_back(x); v.push_back(y); Vec t = vertical_stack(v); symx::check(t.size() == 3, "stack of vectors"); if (t.size() == 3) { eq(t[1], x[1], "first vector"); eq(t[2], y[0], "second vector"); }
}
HARNESS(stack_mismatch) { int c = symx::choose("c", 0, 3); std::vector<Mat> b = {Mat::Ones(1, 2), Mat::Ones(2, c)}; symx::check(b.size() == 2, "reached"); if (c != 2) symx_allow_abort_(1); Mat s = vertical_stack(b); symx::check(c == 2, "blocks of different width are refused"); symx::check(s.rows() == 3, "rows"); }
HARNESS(truncated_solve) {
  int k = symx::choose("case", 0, 3); Mat A(3, 3); if (k == 0) A << 4, 1, 0.5, 1, 3, -1, 0.5, -1, 2; else if (k == 1) { Vec u(3), w(3); u << 1, 2, -1; w << 0, 1, 1; A = u * u.transpose() + w * w.transpose(); } else if (k == 2) { Vec u(3); u << 1, 2, -1; A = u * u.transpose(); } else { A.setZero(); A(0, 0) = 2; A(1, 1) = 0.25; A(2, 2) = 0.0625; } Eigen::SelfAdjointEigenSolver<Mat> e(A); Vec b = vec("b", 3); double th = k == 3 ? 0.1 : 1e-8; Vec x = truncated_psd_solve(e, b, th); symx::check(x.size() == 3, "size"); if (x.size() != 3) return; Mat B = A; if (k == 3) B(2, 2) = 0; Vec r = B * x - b, p = B * r; for (int i = 0; i < 3; i++) eq(p[i], 0, "residual is outside the kept range", 1e-5); if (k == 0) for (int i = 0; i < 3; i++) eq(r[i], 0, "solves when of full rank", 1e-5); Mat N = B.fullPivLu().kernel(); if (k != 0) for (int j = 0; j < N.cols(); j++) { double s = 0; for (int i = 0; i < 3; i++) s += N(i, j) * x[i]; eq(s, 0, "no part outside the kept range", 1e-5); }
  Mat R(3, 2); R.col(0) = b; R.col(1) << 1, 0, -1; Mat X = truncated_psd_solve(e, R, th); symx::check(X.rows() == 3 && X.cols() == 2, "shape"); if (X.cols() == 2 && X.rows() == 3) for (int i = 0; i < 3; i++) eq(X(i, 0), x[i], "each column on its own", 1e-6);
}
HARNESS(large) { // more entries
  using M = std::map<int, double>; M a, b; for (int i = 0; i < 30; i++) { if (i % 3) a[i] = i % 7 == 1 ? rl(nm("a", i), -9, 9) : i; if (i % 4) b[i] = i % 9 == 2 ? rl(nm("b", i), -9, 9) : -i; } M d = map_difference(a, b), s = map_symmetric_difference(a, b), u = map_union(a, b), j = map_join(a, b), x = map_intersect(a, b, ReturnLeft()); for (int i = -1; i < 31; i++) { bool p = i >= 0 && i < 30 && i % 3, q = i >= 0 && i < 30 && i % 4; symx::check(has(d, i) == (p && !q) && has(s, i) == (p != q) && has(u, i) == (p || q) && has(j, i) == (p || q) && has(x, i) == (p && q), "keys of large maps"); if (p || q) { eq(val(u, i), p ? val(a, i) : val(b, i), "union of large maps"); eq(val(j, i), q ? val(b, i) : val(a, i), "join of large maps"); } if (p && q) eq(val(x, i), val(a, i), "intersection of large maps"); if (p != q) eq(val(s, i), p ? val(a, i) : val(b, i), "symmetric difference of large maps"); if (p && !q) eq(val(d, i), val(a, i), "difference of large maps"); }
  double lo = rl("lo", -5, 5), hi = rl("hi", -5, 5); for (int n : {17, 50}) { auto l = linspace(lo, hi, n); symx::check(int(l.size()) == n, "as many points as asked for of many"); if (int(l.size()) != n) return; for (int i = 0; i < n; i++) eq(l[i], lo + (hi - lo) * i / (n - 1), "each of many points", 1e-6); } std::vector<bool> t(40, true), f(40, false); symx::check(albatross::all(t) && !albatross::any(f), "many of one kind"); for (int i = 0; i < 40; i++) { auto t1 = t, f1 = f; t1[i] = false; f1[i] = true; symx::check(!albatross::all(t1) && albatross::any(t1) && albatross::any(f1) && !albatross::all(f1), "one of many"); }
}
