// @bounds: polynomials of order 0 to 3 with every variance parameter symbolic, scalar arguments in [-4,4]; two mean functions defined on overlapping ones of three feature types with arbitrary values at 2 features of each; sums and products nested to three terms; vectors of up to 3 features, linear combinations of up to 3; order 5, 19 features
// @assume: none
#include <albatross/Core>
#include <albatross/GP>
#include <albatross/CovarianceFunctions>
#include "common.hpp"
using namespace albatross; using namespace hx;
static void eq(double a, double b, const char *l) { symx::check_eq(a, b, l); }
template <int N> static void poly() {
  double s0 = rl("s", 0, 5), x = rl("x", -4, 4), y = rl("y", -4, 4), want = 0, all = 0, first = 0;
  Polynomial<N> p(s0);
  double xx = 1, yy = 1;
  for (int i = 0; i <= N; i++) { all += s0 * s0 * xx * yy; xx *= x; yy *= y; }
  eq(p(x, y), all, "one variance for all orders");
  xx = yy = 1;
  for (int i = 0; i <= N; i++) { double s = rl(nm("s", i), 0, 5); if (!i) first = s; p.set_param(nm("sigma_polynomial_", i), Parameter(s)); want += s * s * xx * yy; xx *= x; yy *= y; }
  eq(p(x, y), want, "sum of the variances times the powers"); eq(p(y, x), want, "symmetric");
  symx::check(p.get_params().size() == N + 1, "one parameter per order");
  Polynomial<N> q(p); eq(q(x, y), want, "copy");
  std::vector<double> v = {x, y}; Mat M = p(v); eq(M(0, 1), want, "matrix entry");
  eq(p(0., y), first * first, "only the constant at zero");
}
HARNESS(polynomial_0) { poly<0>(); }
HARNESS(polynomial_1) { poly<1>(); }
HARNESS(polynomial_2) { poly<2>(); }
HARNESS(polynomial_3) { poly<3>(); }
HARNESS(polynomial_5) { poly<5>(); }
HARNESS(constant) { double s = rl("s", 0, 5), t = rl("t", 0, 5); Constant c(s); eq(c(1., 2.), s * s, "variance everywhere"); eq(c(Pt{1}, Pt{2}), s * s, "any feature"); eq(c(Pt{1}, 3.), s * s, "across types"); c.set_param("sigma_constant", Parameter(t)); eq(c(1., 1.), t * t, "parameter"); std::vector<Pt> v = pts(0, 2); Mat M = c(v); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) eq(M(i, j), t * t, "matrix of ones"); auto reps = c.get_state_space_representation(v); symx::check(reps.size() == 1, "one shared term"); }
HARNESS(noise_terms) { double s = rl("s", 0, 5); int i = symx::choose("i", 0, 2), j = symx::choose("j", 0, 2); IndependentNoise<Pt> n(s); eq(n(Pt{i}, Pt{j}), i == j ? s * s : 0., "noise only of a feature with itself"); Nugget g; g.set_param("nugget_sigma", Parameter(s)); eq(g(Pt{i}, Pt{j}), i == j ? s * s : 0., "nugget only of a feature with itself"); double x = rl("x", -3, 3), y = rl("y", -3, 3); eq(g(x, y), x == y ? s * s : 0., "nugget of scalars"); symx::check(Nugget().get_params().at("nugget_sigma").is_fixed(), "fixed by default"); }
HARNESS(linear_mean) { LinearMean m; double a = rl("a", -5, 5), b = rl("b", -5, 5), x = rl("x", -5, 5); eq(m(x), 0, "zero by default"); m.set_param("slope", Parameter(a)); eq(m(x), a * x, "slope times the argument"); m.set_param("offset", Parameter(b)); eq(m(x), b + a * x, "offset plus slope times the argument"); std::vector<double> v = {x, 2., 0.}; Vec r = m(v); symx::check(r.size() == 3, "one mean per feature"); eq(r[0], b + a * x, "vector"); eq(r[1], b + 2 * a, "vector"); eq(r[2], b, "vector"); }
// ---- sums and products ----
struct A { int i = 0; bool operator==(const A &o) const { return i == o.i; } };
struct B { int i = 0; bool operator==(const B &o) const { return i == o.i; } };
static double F_[2], G_[2], H_[4];
static void tables() { for (int i = 0; i < 2; i++) { F_[i] = rl(nm("f", i), -3, 3); G_[i] = rl(nm("g", i), -3, 3); } for (int i = 0; i < 4; i++) H_[i] = rl(nm("h", i), -3, 3); }
struct F : public MeanFunction<F> { std::string name() const { return "f"; } double _call_impl(const A &a) const { return F_[a.i]; } };
struct G : public MeanFunction<G> { std::string name() const { return "g"; } double _call_impl(const B &b) const { return G_[b.i]; } };
struct H : public MeanFunction<H> { std::string name() const { return "h"; } double _call_impl(const A &a) const { return H_[a.i]; } double _call_impl(const B &b) const { return H_[2 + b.i]; } };
HARNESS(sums_and_products) {
  tables(); F f; G g; H h; A a{symx::choose("ai", 0, 1)}; B b{symx::choose("bi", 0, 1)}; double fa = F_[a.i], gb = G_[b.i], ha = H_[a.i], hb = H_[2 + b.i]; eq((f + h)(a), fa + ha, "sum"); eq((h + f)(a), fa + ha, "sum commutes"); eq((f + h)(b), hb, "only the term that applies"); eq((h + f)(b), hb, "only the term that applies, first"); eq((f + g)(a), fa, "left"); eq((f + g)(b), gb, "right"); eq((f * h)(a), fa * ha, "product"); eq((h * f)(a), fa * ha, "product commutes"); eq((f * h)(b), hb, "product of the term that applies"); eq((h * f)(b), hb, "product of the term that applies, first"); eq((f * g)(a), fa, "product left"); eq((f * g)(b), gb, "product right");
  eq(((f + g) + h)(a), fa + ha, "three terms"); eq((f + (g + h))(b), gb + hb, "nested right"); eq(((f + g) * h)(a), fa * ha, "distributed"); eq(((f + g) * h)(b), gb * hb, "distributed"); eq((f * g + h)(b), gb + hb, "product in a sum"); eq((h * (h + f))(a), ha * (ha + fa), "sum in a product"); ZeroMean z; eq((z + h)(a), ha, "zero mean adds nothing"); eq((h + z)(b), hb, "zero mean adds nothing"); eq(z(a), 0, "zero mean");
}
HARNESS(composite_features) {
  tables(); F f; G g; H h; int n = symx::choose("n", 0, 3); std::vector<A> xs; Vec c(n); double want = 0; for (int i = 0; i < n; i++) { xs.push_back(A{symx::choose(nm("i", i).c_str(), 0, 1)}); c[i] = rl(nm("c", i), -2, 2); want += c[i] * (F_[xs[i].i] + H_[xs[i].i]); } auto s = f + h; if (n) eq(s(LinearCombination<A>(xs, c)), want, "linear in combinations"); Measurement<A> m(A{1}); eq(s(m), F_[1] + H_[1], "measurements have the mean of what is measured"); Vec v = s(xs); symx::check(v.size() == n, "one mean per feature"); for (int i = 0; i < n; i++) eq(v[i], F_[xs[i].i] + H_[xs[i].i], "vector of means");
  using V = variant<A, B>; std::vector<V> vs; vs.push_back(A{0}); vs.push_back(B{1}); vs.push_back(A{1}); Vec w = s(vs); eq(w[0], F_[0] + H_[0], "variant"); eq(w[1], H_[3], "variant, other alternative"); eq(w[2], F_[1] + H_[1], "variant, third"); Vec u = g(vs); eq(u[0], 0, "nothing where undefined"); eq(u[1], G_[1], "where defined"); auto ms = as_measurements(vs); Vec q = s(ms); for (int i = 0; i < 3; i++) eq(q[i], w[i], "measured variants");
}
HARNESS(add_and_remove) {
  tables(); int n = symx::choose("n", 0, 3), which = symx::choose("which", 0, 3); std::vector<A> xs; for (int i = 0; i < n; i++) xs.push_back(A{symx::choose(nm("i", i).c_str(), 0, 1)}); Vec y = vec("y", n), z = y; F f; H h; auto s = f + h; auto p = f * h; ZeroMean zero; auto run = [&](const auto &m, auto mean) { m.add_to(xs, &z); for (int i = 0; i < n; i++) eq(z[i], y[i] + mean(xs[i].i), "mean added to each entry"); m.remove_from(xs, &z); for (int i = 0; i < n; i++) eq(z[i], y[i], "removed again"); m.remove_from(xs, &z); for (int i = 0; i < n; i++) eq(z[i], y[i] - mean(xs[i].i), "mean removed from each entry"); m.add_to(xs, &z); for (int i = 0; i < n; i++) eq(z[i], y[i], "added again"); };
  if (which == 0) run(f, [&](int i) { return F_[i]; }); else if (which == 1) run(s, [&](int i) { return F_[i] + H_[i]; }); else if (which == 2) run(p, [&](int i) { return F_[i] * H_[i]; }); else run(zero, [&](int) { return 0.; });
}
HARNESS(sizes_refused) { tables(); int n = symx::choose("n", 0, 2), k = symx::choose("k", 0, 2), add = symx::choose("add", 0, 1); symx::check(n >= 0, "reached"); if (n != k) symx_allow_abort_(1); std::vector<A> xs(n); Vec y = vec("y", k); H h; if (add) h.add_to(xs, &y); else h.remove_from(xs, &y); symx::check(n == k, "mismatching sizes are refused"); }
HARNESS(parameters) {
  tables(); LinearMean m; auto s = m + H(); double a = rl("a", -5, 5), b = rl("b", -5, 5), x = rl("x", -4, 4);
  s.set_param("slope", Parameter(a)); s.set_param("offset", Parameter(b));
  eq(s(x), b + a * x, "parameters of a term set through the sum");
  symx::check(s.get_params().size() == 2, "parameters of the terms"); eq(s.get_params().at("slope").value, a, "value through the sum");
  auto p = H() * m; p.set_param("offset", Parameter(2.)); eq(p(x), 2., "parameters of a term set through the product");
}
HARNESS(large) { // more features
  tables(); int n = 19; std::vector<A> xs; for (int i = 0; i < n; i++) xs.push_back(A{(i * 5) % 3 == 1}); Vec y = big_vec("y", n, 4), z = y; F f; H h; auto s = f + h * f; Vec m = s(xs); symx::check(m.size() == n, "one mean per feature of many"); if (m.size() != n) return; double tot = 0; Vec c(n); for (int i = 0; i < n; i++) { double want = F_[xs[i].i] + H_[xs[i].i] * F_[xs[i].i]; eq(m[i], want, "mean of each of many"); c[i] = 0.25 * (i % 5) - 0.5; tot += c[i] * want; } s.add_to(xs, &z); for (int i = 0; i < n; i++) eq(z[i], y[i] + m[i], "mean added to each of many"); s.remove_from(xs, &z); for (int i = 0; i < n; i++) eq(z[i], y[i], "removed again from each of many"); eq(s(LinearCombination<A>(xs, c)), tot, "combination of many");
  using V = variant<A, B>; std::vector<V> vs; std::vector<double> want; for (int i = 0; i < n; i++) { int k = (i * 3) % 4 == 1; if (i % 3) { vs.push_back(A{k}); want.push_back(F_[k] + H_[k]); } else { vs.push_back(B{k}); want.push_back(H_[2 + k]); } } Vec w = (f + h)(vs); symx::check(w.size() == n, "one mean per variant of many"); if (w.size() == n) for (int i = 0; i < n; i++) eq(w[i], want[i], "mean of each variant of many");
}
