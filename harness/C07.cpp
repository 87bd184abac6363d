// @bounds: three covariance functions defined on overlapping pairs of two feature types, 2 features of each type, all values arbitrary symbolic; every nesting of up to three terms by sum and product, measurement tags on either side, variants, linear combinations of 1-3 terms with symbolic coefficients; matrices up to 4x4
// @assume: a function defined for two arguments of the same type is symmetric
#include <albatross/GP>
#include <albatross/CovarianceFunctions>
#include "common.hpp"
using namespace albatross; using namespace hx;
struct A { int i = 0; bool operator==(const A &o) const { return i == o.i; } };
struct B { int i = 0; bool operator==(const B &o) const { return i == o.i; } };
static double T[3][4][4]; // ids: A0 A1 B0 B1
static double S1[4];
static int id(const A &a) { return a.i; }
static int id(const B &b) { return 2 + b.i; }
static void tables() { for (int f = 0; f < 3; f++) for (int i = 0; i < 4; i++) for (int j = 0; j <= i; j++) T[f][i][j] = T[f][j][i] = rl(nm(f == 0 ? "f" : f == 1 ? "g" : "h", i, j), -3, 3); for (int i = 0; i < 4; i++) S1[i] = rl(nm("s", i), -3, 3); }
struct F : public CovarianceFunction<F> { std::string name() const { return "f"; } double _call_impl(const A &a, const A &b) const { return T[0][id(a)][id(b)]; } double _call_impl(const A &a, const B &b) const { return T[0][id(a)][id(b)]; } double _call_impl(const B &a, const B &b) const { return T[0][id(a)][id(b)]; } };
struct G : public CovarianceFunction<G> { std::string name() const { return "g"; } double _call_impl(const A &a, const A &b) const { return T[1][id(a)][id(b)]; } };
struct H : public CovarianceFunction<H> { std::string name() const { return "h"; } double _call_impl(const B &a, const B &b) const { return T[2][id(a)][id(b)]; } };
struct Sc : public ScalingFunction { std::string get_name() const override { return "sc"; } double _call_impl(const A &a) const { return S1[id(a)]; } };
static void eq(double a, double b, const char *l) { symx::check_eq(a, b, l); }
HARNESS(sums_and_products) {
  tables(); F f; G g; H h; A a0{0}, a1{1}; B b0{0}, b1{1}; auto t = [](int k, const auto &x, const auto &y) { return T[k][id(x)][id(y)]; };
  auto fg = f + g; eq(fg(a0, a1), t(0, a0, a1) + t(1, a0, a1), "sum of two"); eq(fg(b0, b1), t(0, b0, b1), "sum where one is defined"); eq(fg(a0, b1), t(0, a0, b1), "sum across types"); eq(fg(b1, a0), t(0, a0, b1), "sum with swapped arguments");
  auto gf = g + f; eq(gf(a0, a1), fg(a0, a1), "sum commutes"); eq(gf(b0, b1), t(0, b0, b1), "sum where the second is defined"); eq(gf(b1, a0), t(0, a0, b1), "second term with swapped arguments");
  auto gh = g + h; eq(gh(a0, a1), t(1, a0, a1), "left only"); eq(gh(b0, b1), t(2, b0, b1), "right only");
  auto p = f * g; eq(p(a0, a1), t(0, a0, a1) * t(1, a0, a1), "product of two"); eq(p(b0, b1), t(0, b0, b1), "product where one is defined"); eq(p(b1, a0), t(0, a0, b1), "product with swapped arguments"); auto q = g * f; eq(q(a0, a1), p(a0, a1), "product commutes"); eq(q(b0, b1), t(0, b0, b1), "product where the second is defined"); eq(q(a1, b0), t(0, a1, b0), "product across types");
  auto n1 = (f + g) + h; auto n2 = f + (g + h); eq(n1(b0, b1), t(0, b0, b1) + t(2, b0, b1), "nested sum left"); eq(n2(b0, b1), n1(b0, b1), "nested sum right"); eq(n1(a0, a1), t(0, a0, a1) + t(1, a0, a1), "nested sum a"); eq(n2(a1, a0), n1(a0, a1), "nested sum symmetric"); eq(n2(b0, a0), t(0, a0, b0), "nested sum across");
  auto d1 = f * (g + h); eq(d1(a0, a1), t(0, a0, a1) * t(1, a0, a1), "distributed a"); eq(d1(b0, b0), t(0, b0, b0) * t(2, b0, b0), "distributed b"); eq(d1(a0, b0), t(0, a0, b0), "distributed across"); auto d2 = (f + h) * (f * g) + g; eq(d2(a0, a1), t(0, a0, a1) * t(0, a0, a1) * t(1, a0, a1) + t(1, a0, a1), "deep nesting"); eq(d2(b0, b1), (t(0, b0, b1) + t(2, b0, b1)) * t(0, b0, b1), "deep nesting b");
}
HARNESS(measurements) {
  tables(); F f; G g; H h; A a0{0}, a1{1}; B b0{0}; auto t = [](int k, const auto &x, const auto &y) { return T[k][id(x)][id(y)]; }; const Measurement<A> m0(a0), m1(a1); Measurement<B> mb(b0);
  auto mo = measurement_only(g); eq(mo(a0, a1), 0, "latent pair"); eq(mo(m0, a1), 0, "one measurement"); eq(mo(a0, m1), 0, "other measurement"); eq(mo(m0, m1), t(1, a0, a1), "both measurements");
  auto s = f + mo; eq(s(a0, a1), t(0, a0, a1), "sum latent"); eq(s(m0, a1), t(0, a0, a1), "sum one measurement"); eq(s(a0, m1), t(0, a0, a1), "sum other measurement"); eq(s(m0, m1), t(0, a0, a1) + t(1, a0, a1), "sum both"); eq(s(m0, mb), t(0, a0, b0), "sum across"); eq(s(mb, m0), t(0, a0, b0), "sum across swapped"); eq(s(mb, a0), t(0, a0, b0), "sum mixed across");
  auto r = mo + f; eq(r(m0, m1), s(m0, m1), "order of terms"); eq(r(a0, m1), s(a0, m1), "order of terms, mixed"); auto pm = f * mo; eq(pm(m0, m1), t(0, a0, a1) * t(1, a0, a1), "product both"); eq(pm(a0, a1), 0, "product latent"); eq(pm(m0, a1), 0, "product mixed");
  auto md = measurement_only(g * f) + h; eq(md(m0, m0), t(1, a0, a0) * t(0, a0, a0), "tagged product"); eq(md(a0, a0), 0, "tagged product latent");
  std::vector<A> as = {a0, a1}; auto ms = as_measurements(as); Mat C = s(ms), L = s(as), X = s(ms, as); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { eq(C(i, j), T[0][i][j] + T[1][i][j], "measurement matrix"); eq(L(i, j), T[0][i][j], "latent matrix"); eq(X(i, j), T[0][i][j], "mixed matrix"); }
  symx::check(without_measurement(m1).i == 1 && without_measurement(a1).i == 1 && as_measurement(a1).value.i == 1, "tag and value");
  IndependentNoise<A> noise(2.); eq(noise(a0, a0), 4, "noise at equal features"); eq(noise(a0, a1), 0, "noise at different features"); double sg = rl("sg", 0, 4); noise.set_param_value("sigma_independent_noise", sg); eq(noise(a1, a1), sg * sg, "noise variance");
}
HARNESS(matrices) {
  tables(); F f; G g; int n = symx::choose("n", 0, 2), m = symx::choose("m", 0, 2); std::vector<A> as; std::vector<B> bs; for (int i = 0; i < n; i++) as.push_back(A{i}); for (int i = 0; i < m; i++) bs.push_back(B{i}); auto s = f + g; auto ms = as_measurements(as);
  Mat C = s(as), X = s(as, bs), Y = s(bs, as), D = s(bs); Vec d = s.diagonal(as); symx::check(C.rows() == n && C.cols() == n && X.rows() == n && X.cols() == m && Y.rows() == m && Y.cols() == n && D.rows() == m && d.size() == n, "sizes");
  for (int i = 0; i < n; i++) { eq(d[i], T[0][i][i] + T[1][i][i], "diagonal"); for (int j = 0; j < n; j++) eq(C(i, j), T[0][i][j] + T[1][i][j], "square matrix"); for (int j = 0; j < m; j++) { eq(X(i, j), T[0][i][2 + j], "cross matrix"); eq(Y(j, i), T[0][i][2 + j], "transposed cross matrix"); } } for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) eq(D(i, j), T[0][2 + i][2 + j], "second square matrix");
}
HARNESS(variants) {
  tables(); F f; G g; H h; using V = variant<A, B>; auto term = [](int k, int i, int j) { return T[k][i][j]; }; std::vector<V> vs; std::vector<int> ids; for (int i = 0; i < 2; i++) { int k = symx::choose(nm("v", i).c_str(), 0, 3); ids.push_back(k); if (k < 2) vs.push_back(A{k}); else vs.push_back(B{k - 2}); }
  auto s = f + g; auto gh = g + h; auto p = f * g; Mat S = s(vs), R = gh(vs), P = p(vs); A a1{1}; std::vector<A> as = {a1}; Mat X = s(as, vs), Z = gh(as, vs), W1 = gh(vs, as);
  for (int i = 0; i < 2; i++) { int x = ids[i]; for (int j = 0; j < 2; j++) { int y = ids[j]; bool aa = x < 2 && y < 2, bb = x >= 2 && y >= 2; eq(S(i, j), term(0, x, y) + (aa ? term(1, x, y) : 0.), "variant sum"); eq(R(i, j), aa ? term(1, x, y) : bb ? term(2, x, y) : 0., "zero when no term applies"); eq(P(i, j), aa ? term(0, x, y) * term(1, x, y) : term(0, x, y), "variant product"); eq(S(i, j), S(j, i), "variant symmetry"); }
    eq(X(0, i), term(0, 1, x) + (x < 2 ? term(1, 1, x) : 0.), "type against variant"); eq(Z(0, i), x < 2 ? term(1, 1, x) : 0., "type against variant, undefined"); eq(W1(i, 0), Z(0, i), "variant against type"); }
  auto mo = f + measurement_only(g); auto mv = as_measurements(vs); Mat Q = mo(mv), QL = mo(mv, vs); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { int x = ids[i], y = ids[j]; bool aa = x < 2 && y < 2; eq(Q(i, j), term(0, x, y) + (aa ? term(1, x, y) : 0.), "measured variants"); eq(QL(i, j), term(0, x, y), "measured against latent variants"); }
}
HARNESS(linear_combinations) {
  tables(); F f; G g; auto s = f + g; int n = symx::choose("n", 1, 2), m = symx::choose("m", 1, 3); std::vector<A> xs; std::vector<int> xi, yi; for (int i = 0; i < n; i++) { xi.push_back(1 - i); xs.push_back(A{1 - i}); } std::vector<A> ys; for (int i = 0; i < m; i++) { yi.push_back(i % 2); ys.push_back(A{i % 2}); } Vec a = vec("a", n), b = vec("b", m);
  LinearCombination<A> x(xs, a), y(ys, b); double r = 0; for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) r += a[i] * b[j] * (T[0][xi[i]][yi[j]] + T[1][xi[i]][yi[j]]); eq(s(x, y), r, "bilinear expansion"); eq(s(y, x), r, "bilinear expansion, swapped");
  A a1{1}; double r1 = 0; for (int j = 0; j < m; j++) r1 += b[j] * (T[0][1][yi[j]] + T[1][1][yi[j]]); eq(s(a1, y), r1, "against one feature"); eq(s(y, a1), r1, "one feature against"); B b0{0}; double r2 = 0; for (int j = 0; j < m; j++) r2 += b[j] * T[0][2][yi[j]]; eq(s(b0, y), r2, "across types"); eq(s(y, b0), r2, "across types, swapped");
  std::vector<LinearCombination<A>> ls = {x, y}; Mat C = s(ls); eq(C(0, 1), r, "matrix of combinations"); eq(C(1, 0), r, "matrix of combinations, symmetric"); auto mo = f + measurement_only(g); double rf = 0; for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) rf += a[i] * b[j] * T[0][xi[i]][yi[j]]; eq(mo(x, y), rf, "latent combinations");
  using V = variant<A, B>; Vec c(2); c << a[0], b[0]; LinearCombination<V> v({V(A{0}), V(B{1})}, c); eq(f(v, v), c[0] * c[0] * T[0][0][0] + 2 * c[0] * c[1] * T[0][0][3] + c[1] * c[1] * T[0][3][3], "combination of variants");
  auto su = linear_combination::sum(A{0}, A{1}); auto di = linear_combination::difference(A{0}, A{1}); auto me = linear_combination::mean(std::vector<A>{A{0}, A{1}}); eq(f(su, a1), T[0][0][1] + T[0][1][1], "sum of features"); eq(f(di, a1), T[0][0][1] - T[0][1][1], "difference of features"); eq(f(me, a1), (T[0][0][1] + T[0][1][1]) / 2, "mean of features");
}
HARNESS(scaling) {
  tables(); F f; G g; ScalingTerm<Sc> sc; A a0{0}, a1{1}; B b0{0}, b1{1}; auto l = sc * f; auto r = f * sc; eq(l(a0, a1), S1[0] * S1[1] * T[0][0][1], "both scaled"); eq(r(a0, a1), l(a0, a1), "either side"); eq(l(a0, b0), S1[0] * T[0][0][2], "one scaled"); eq(l(b0, a0), S1[0] * T[0][0][2], "one scaled, swapped"); eq(r(b0, a0), S1[0] * T[0][0][2], "one scaled, either side"); eq(l(b0, b1), T[0][2][3], "none scaled"); eq(r(b0, b1), T[0][2][3], "none scaled, either side");
  auto n = sc * f + g; eq(n(a0, a1), S1[0] * S1[1] * T[0][0][1] + T[1][0][1], "scaled term in a sum"); auto k = sc * (f + g); eq(k(a0, a1), S1[0] * S1[1] * (T[0][0][1] + T[1][0][1]), "scaled sum"); eq(k(a1, b1), S1[1] * T[0][1][3], "scaled sum across"); Mat C = l(std::vector<A>{a0, a1}); eq(C(1, 0), S1[0] * S1[1] * T[0][0][1], "scaled matrix");
}
