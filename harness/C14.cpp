// @bounds: every prior with symbolic parameters (locations in [-5,5], scales in (0,5], bounds in [-50,50]) evaluated at a symbolic point in [-60,60]; parameter stores of up to 3 parameters with any combination of priors
// @assume: scales are positive and locations no more than four scales below zero (the positive Gaussian prior's normalisation underflows far below that); log, exp and erfc are functions with their elementary properties
#include <albatross/Core>
#include <albatross/GP>
#include <albatross/CovarianceFunctions>
#include "common.hpp"
using namespace albatross; using namespace hx;
static const double L2PI = 1.8378770664093454836;
static bool ninf(double v) { return std::isinf(v) && v < 0; }
struct Args { double mu, sigma, lo, hi; };
static Args args(const char *t = "") { Args a; a.mu = rl(std::string("mu") + t, -5, 5); a.sigma = rl(std::string("sigma") + t, 0.01, 5); a.lo = rl(std::string("lo") + t, -50, 50); a.hi = rl(std::string("hi") + t, -50, 50); symx::assume(a.hi > a.lo); symx::assume(a.mu > -4 * a.sigma); return a; }
static const int KINDS = 9;
static Parameter with(int kind, double v, const Args &a) {
  switch (kind) { case 0: return Parameter(v); case 1: return Parameter(v, FixedPrior()); case 2: return Parameter(v, NonNegativePrior()); case 3: return Parameter(v, PositivePrior()); case 4: return Parameter(v, UniformPrior(a.lo, a.hi)); case 5: return Parameter(v, LogScaleUniformPrior(a.lo, a.hi)); case 6: return Parameter(v, GaussianPrior(a.mu, a.sigma)); case 7: return Parameter(v, LogNormalPrior(a.mu, a.sigma)); default: return Parameter(v, PositiveGaussianPrior(a.mu, a.sigma)); }
}
// the log density; `finite` says whether x lies in the support
static double density(int kind, double x, const Args &a, bool &finite) {
  finite = true; double z = (x - a.mu) / a.sigma;
  switch (kind) { case 0: case 1: return 0; case 2: finite = x >= 0; return 0; case 3: finite = x > 0; return 0; case 4: case 5: finite = x >= a.lo && x <= a.hi; return -std::log(a.hi - a.lo); case 6: return -0.5 * L2PI - std::log(a.sigma) - 0.5 * z * z;
    case 7: { finite = x > 0; if (!finite) return 0; double y = (std::log(x) - a.mu) / a.sigma; return -0.5 * L2PI - std::log(a.sigma) - std::log(x) - 0.5 * y * y; }
    default: finite = x >= 0; return -0.5 * L2PI - std::log(a.sigma) - 0.5 * z * z - std::log(0.5 * std::erfc(-a.mu / (a.sigma * std::sqrt(2.)))); }
}
static void positive(int kind, const Args &a) { if (kind == 5) symx::assume(a.lo > 0.001); }
HARNESS(log_densities) {
  int kind = symx::choose("kind", 0, KINDS - 1); Args a = args(); positive(kind, a); double x = rl("x", -60, 60); Parameter p = with(kind, x, a); bool finite; double want = density(kind, x, a, finite); double got = p.prior.log_pdf(x);
  if (finite) symx::check_eq(got, want, "log density of the named distribution", 1e-5); else symx::check(ninf(got), "minus infinity outside the support"); double again = p.prior_log_likelihood(); if (finite) symx::check_eq(again, got, "parameter's log likelihood"); else symx::check(ninf(again), "parameter's log likelihood outside");
}
HARNESS(half_normal) { double s = rl("s", 0.1, 5), x = rl("x", 0, 20); PositiveGaussianPrior h(0., s); GaussianPrior g(0., s); symx::check_eq(h.log_pdf(x) - g.log_pdf(x), 0.6931471805599453, "half normal is twice the normal", 1e-6); }
HARNESS(gaussian_shape) { // relations any normal density satisfies
  Args a = args(); GaussianPrior g(a.mu, a.sigma); double d = rl("d", 0, 10); symx::check_eq(g.log_pdf(a.mu + d), g.log_pdf(a.mu - d), "symmetric"); symx::check_eq(g.log_pdf(a.mu) - g.log_pdf(a.mu + a.sigma), 0.5, "one standard deviation away"); LogNormalPrior l(a.mu, a.sigma); double x = rl("x", 0.01, 50); symx::check_eq(l.log_pdf(x), g.log_pdf(std::log(x)) - std::log(x), "log normal is the density of the exponential of a normal"); }
HARNESS(bounds_and_flags) {
  int kind = symx::choose("kind", 0, KINDS - 1); Args a = args(); positive(kind, a); double x = rl("x", -60, 60); Parameter p = with(kind, x, a); double lo = p.prior.lower_bound(), hi = p.prior.upper_bound(); bool in = x >= lo && x <= hi; symx::check(p.within_bounds() == in && p.is_valid() == in, "validity is lying within the bounds"); double v = p.prior.log_pdf(x); if (in) symx::check(!std::isinf(v) && !std::isnan(v), "finite within the bounds"); symx::check(!std::isnan(v), "never undefined");
  if (kind != 8 && x > 1e-9) { if (!in) symx::check(ninf(v), "zero density outside the bounds"); } if (kind == 4 || kind == 5) symx::check(lo == a.lo && hi == a.hi, "bounds of a uniform prior"); if (kind == 0 || kind == 1 || kind == 6) symx::check(ninf(lo) && std::isinf(hi), "unbounded"); if (kind == 2 || kind == 8) symx::check(lo == 0, "bounded below by zero"); if (kind == 3 || kind == 7) symx::check(lo > 0 && lo < 1e-9, "bounded below by the smallest positive");
  symx::check(p.is_fixed() == (kind == 1) && p.prior.is_fixed() == (kind == 1), "fixed"); symx::check(p.prior.is_log_scale() == (kind == 5), "log scale");
}
HARNESS(names) {
  std::vector<std::string> seen; Args a{1.5, 0.5, 2., 3.}; const char *want[KINDS] = {"uninformative", "fixed", "non_negative", "positive", "uniform[2,3]", "log_scale_uniform[2,3]", "gaussian[1.5,0.5]", "log_normal[1.5,0.5]", "positive_gaussian[1.5,0.5]"}; for (int k = 0; k < KINDS; k++) symx::check(with(k, 1., a).prior.get_name() == want[k], "name and arguments of the distribution");
}
HARNESS(equality) {
  int k = symx::choose("k", 0, KINDS - 1), l = symx::choose("l", 0, KINDS - 1); Args a = args("a"), b = args("b"); positive(k, a); positive(l, b); bool args_same = k == 4 || k == 5 ? a.lo == b.lo && a.hi == b.hi : k >= 6 ? a.mu == b.mu && a.sigma == b.sigma : true; bool same = k == l && args_same; double v = rl("v", -3, 3), w = rl("w", -3, 3); Parameter p = with(k, v, a), q = with(l, w, b);
  symx::check((p.prior == q.prior) == same, "equal exactly when type and arguments are"); symx::check((p.prior != q.prior) == !same, "unequal otherwise"); symx::check((p == q) == (same && v == w), "parameter equality"); symx::check((p != q) == !(same && v == w), "parameter inequality"); PriorContainer c(p.prior); symx::check(c == p.prior, "copy"); c = q.prior; symx::check((c == p.prior) == same, "assignment replaces the prior");
}
HARNESS(stores) {
  int n = symx::choose("n", 0, 2); Args a = args(); symx::assume(a.lo > 0.001); ParameterStore s; double want = 0; bool finite = true, valid = true; static const char *names[3] = {"a", "b", "c"}; for (int i = 0; i < n; i++) { int k = symx::choose(nm("k", i).c_str(), 0, KINDS - 1); double x = rl(nm("x", i), -60, 60); Parameter p = with(k, x, a); bool f; double d = density(k, x, a, f); finite = finite && f; if (f) want += d; valid = valid && x >= p.prior.lower_bound() && x <= p.prior.upper_bound(); s[names[i]] = p; }
  double got = parameter_prior_log_likelihood(s); if (finite) symx::check_eq(got, want, "sum over the parameters", 1e-5); else symx::check(ninf(got), "one impossible parameter makes the set impossible"); symx::check(params_are_valid(s) == valid, "valid exactly when every parameter is");
}
HARNESS(models) { // models report the priors of all their parameters
  Args a = args(); double v = rl("v", 0.1, 20), l = rl("l", 0.1, 20), s = rl("s", 0.1, 20); symx::assume(a.lo > 0.001); auto cov = SquaredExponential<EuclideanDistance>(l, v) + IndependentNoise<double>(s); int k = symx::choose("k", 0, 3), ks[3] = {k == 0 ? 4 : k == 1 ? 6 : k == 2 ? 7 : 8, k == 3 ? 4 : 6, 7}; const char *names[3] = {"squared_exponential_length_scale", "sigma_squared_exponential", "sigma_independent_noise"}; double x[3] = {l, v, s}; double want = 0; bool finite = true; for (int i = 0; i < 3; i++) { cov.set_param(names[i], with(ks[i], x[i], a)); bool f; double d = density(ks[i], x[i], a, f); finite = finite && f; want += d; }
  auto m = gp_from_covariance(cov, "m"); double got = m.prior_log_likelihood(); if (finite) symx::check_eq(got, want, "prior likelihood of a model", 1e-5); else symx::check(ninf(got), "impossible parameter in a model");
}
