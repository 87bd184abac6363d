// @bounds: up to 3 samples (4 when thorough) for the uniform test and every point of the unit interval; every argument of the Gaussian density; polynomials of degree 0 to 9, 40 to 49 and 90 to 99 with every coefficient; every argument of the incomplete gamma function on its boundary ranges, and the continued fraction and the quadrature at fixed arguments against closed forms
// @assume: samples of the uniform test lie in [0,1]
#define ALBATROSS_CEREAL_SUITESPARSE_H
#define ALBATROSS_CEREAL_SERIALIZABLE_SPQR_H
#include <albatross/Core>
#include <albatross/Stats>
#include "common.hpp"
using namespace albatross; using namespace hx;
static void eq(double a, double b, const char *l, double tol = 1e-6) { symx::check_eq(a, b, l, tol); }
// ---- uniform test ----
#ifdef SYMX_THOROUGH
static const int N = 4;
#else
static const int N = 3;
#endif
HARNESS(uniform) {
  int n = symx::choose("n", 1, N); std::vector<double> x; for (int i = 0; i < n; i++) x.push_back(rl(nm("x", i), 0, 1)); auto before = x; double D = uniform_ks_test(x), t = rl("t", 0, 1); for (int i = 0; i < n; i++) eq(x[i], before[i], "samples are not changed");
  int below = 0, upto = 0; for (int i = 0; i < n; i++) { if (x[i] < t) below++; if (x[i] <= t) upto++; }
  double a = double(upto) / n - t, b = t - double(below) / n; symx::check(a <= D + 1e-9 && b <= D + 1e-9, "no point where the samples' distribution is further from the uniform one"); symx::check(D >= 0.5 / n - 1e-9 && D <= 1 + 1e-9, "between half a step and one");
}
HARNESS(uniform_attained) {
  int n = symx::choose("n", 1, N); std::vector<double> x; for (int i = 0; i < n; i++) x.push_back(rl(nm("x", i), 0, 1)); double D = uniform_ks_test(x); bool hit = false; for (int i = 0; i < n; i++) { int below = 0, upto = 0; for (int j = 0; j < n; j++) { if (x[j] < x[i]) below++; if (x[j] <= x[i]) upto++; } double a = double(upto) / n - x[i], b = x[i] - double(below) / n; hit |= std::abs(D - a) <= 1e-9 || std::abs(D - b) <= 1e-9; } symx::check(hit, "distance is attained at a sample");
}
HARNESS(uniform_order) { std::vector<double> x, y; for (int i = 0; i < 3; i++) x.push_back(rl(nm("x", i), 0, 1)); y = {x[2], x[0], x[1]}; eq(uniform_ks_test(x), uniform_ks_test(y), "order of the samples"); std::vector<double> m; for (double v : x) m.push_back(1 - v); eq(uniform_ks_test(m), uniform_ks_test(x), "mirrored samples"); }
HARNESS(uniform_empty) { eq(uniform_ks_test({}), 0, "no samples, no distance"); }
// ---- density ----
HARNESS(density) {
  double d = rl("d", -4, 4), v = rl("v", 0.1, 5); double l = gaussian::log_pdf(d, v), p = gaussian::pdf(d, v); eq(l, -0.5 * (d * d / v + std::log(v) + std::log(2 * M_PI)), "log density"); eq(gaussian::log_pdf(-d, v), l, "log density is even"); eq(gaussian::pdf(-d, v), p, "density is even");
  symx::check(p > 0, "density is positive"); double e = std::exp(-(d * d) / (2 * v)); eq(p * p * v * (2 * M_PI), e * e, "density"); double q = gaussian::pdf(0., v); symx::check(p <= q + 1e-12, "largest at the mean");
}
// ---- quadrature table ----
static void moments(int lo, int hi) {
  const auto &x = details::gauss_legendre_50_points; const auto &w = details::gauss_legendre_50_weights; symx::check(x.size() == 50 && w.size() == 50, "fifty points"); if (x.size() != 50 || w.size() != 50) return; double sum = 0, want = 0; std::vector<double> c; for (int k = lo; k <= hi; k++) { c.push_back(rl(nm("c", k), -1, 1)); if (k % 2 == 0) want += 2 * c.back() / (k + 1); }
  for (int i = 0; i < 50; i++) { double p = 0, m = std::pow(x[i], lo); for (double y : c) { p += y * m; m *= x[i]; } sum += w[i] * p; } eq(sum, want, "integral of every polynomial", 1e-10);
}
HARNESS(quadrature) { moments(0, 9); }
HARNESS(quadrature_middle) { moments(40, 49); }
HARNESS(quadrature_high) { moments(90, 99); }
// integral of a polynomial over any interval, through the functions the incomplete gamma uses
HARNESS(quadrature_interval) {
  double a = rl("a", -2, 2), b = rl("b", -2, 2), c0 = rl("c0", -1, 1), c1 = rl("c1", -1, 1), c2 = rl("c2", -1, 1), s = 0; for (size_t i = 0; i < 50; i++) { double x = details::incomplete_gamma_quadrature_inp_vals(a, b, i); s += (c0 + c1 * x + c2 * x * x) * details::incomplete_gamma_quadrature_weight_vals(a, b, i); }
  eq(s, c0 * (b - a) + c1 * (b * b - a * a) / 2 + c2 * (b * b * b - a * a * a) / 3, "integral over every interval", 1e-9);
}
// ---- incomplete gamma ----
HARNESS(gamma_ranges) {
  double a = rl("a", -3, 1e-16), z = rl("z", -3, 1e-16); double v = incomplete_gamma(a, z); if (a < 0) symx::check(std::isnan(v), "not defined for a negative shape"); else eq(v, 0, "nothing below zero", 1e-15);
  double b = rl("b", 0, 40); eq(incomplete_gamma(b, z), 0, "nothing below zero for every shape", 1e-15); double s = rl("s", 0, 2e-16), y = rl("y", 1e-3, 50); eq(incomplete_gamma(s, y), 1, "everything at shape zero", 1e-15);
  eq(incomplete_gamma(symx::choose("half", 0, 1) ? rl("h", 0.5, 9) : rl("h2", 10, 60), INFINITY), 1, "everything is below infinity, for every shape", 1e-15);
  symx::check(std::isnan(incomplete_gamma(NAN, y)) && std::isnan(incomplete_gamma(b, NAN)), "not a number stays so");
}
HARNESS(chi_squared_ranges) {
  double x = rl("x", -3, -1e-6), k = rl("k", 0, 30), y = rl("y", 0, 60); symx::check(std::isnan(chi_squared_cdf(x, k)) && std::isnan(chi_squared_cdf(NAN, k)), "no probability of a negative distance"); eq(chi_squared_cdf(y, 0), 1, "no degrees of freedom"); eq(chi_squared_cdf(INFINITY, k), 1, "everything is below infinity", 1e-15);
  double tiny = rl("tiny", 0, 2e-16), k1 = rl("k1", 0.5, 30); eq(chi_squared_cdf(tiny, k1), 0, "nothing below zero", 1e-15);
}
static double poisson(int n, double z) { double t = 1, s = 1; for (int k = 1; k < n; k++) { t *= z / k; s += t; } return 1 - s * std::exp(-z); }
HARNESS(gamma_values) { // fixed arguments on both sides of the switch between the two methods
  static const int shapes[9] = {1, 2, 3, 5, 8, 9, 10, 12, 30}; static const double at[7] = {0.125, 0.5, 0.75, 1, 1.25, 2, 4}; for (int n : shapes) for (double f : at) eq(incomplete_gamma(n, f * n), poisson(n, f * n), "closed form for whole shapes"); static const double zs[8] = {0.01, 0.25, 1, 2.25, 4, 9, 16, 50}; for (double z : zs) { eq(incomplete_gamma(0.5, z), std::erf(std::sqrt(z)), "closed form for shape one half"); eq(chi_squared_cdf(2 * z, 1), std::erf(std::sqrt(z)), "one degree of freedom"); eq(chi_squared_cdf(2 * z, 4), poisson(2, z), "four degrees of freedom"); eq(incomplete_gamma(1.5, z), std::erf(std::sqrt(z)) - std::sqrt(z) * std::exp(-z) * 2 / std::sqrt(M_PI), "closed form for shape three halves"); }
  static const double big[3] = {1000, 25000, 250000}; for (double a : big) for (double f : {0.5, 1., 2.}) { double v = incomplete_gamma(a, f * a); symx::check(v >= -1e-8 && v <= 1 + 1e-8, "a probability"); eq(v, f < 1 ? 0 : f > 1 ? 1 : 0.5 + 1 / (3 * std::sqrt(2 * M_PI * a)), "large shapes", 1e-4); } double prev = 0; for (int i = 0; i <= 160; i++) { double v = incomplete_gamma(9.75, i * 0.25); symx::check(v >= prev - 1e-9 && v <= 1, "increasing"); prev = v; } prev = 0; for (int i = 0; i <= 160; i++) { double v = incomplete_gamma(10.25, i * 0.25); symx::check(v >= prev - 1e-9 && v <= 1 + 1e-9, "increasing, quadrature"); prev = v; }
}
static void bounded(double a, double lo, double hi) { double z = rl("z", lo, hi); double v = incomplete_gamma(a, z); symx::check(v >= 0 && v <= 1, "a probability"); }
HARNESS(gamma_bounds_one) { bounded(1, 0.5, 4); }
HARNESS(gamma_bounds_nine) { bounded(9, 0.01, 60); }
HARNESS(gamma_positive) { double z = rl("z", 1, 60); double v = incomplete_gamma(10., z); symx::check(v >= 0, "not negative"); }
// ---- Mahalanobis distance ----
HARNESS(deviation) {
  double d = rl("d", -3, 3), v = rl("v", 0.1, 4); double c = symx::choose("c", 0, 1); if (c == 0) symx::assume(d * d / v < 1e-16); else symx::assume(d == 0); eq(chi_squared_cdf(d, v, std::size_t(3)), 0, "no deviation", 1e-15);
  Vec z = Vec::Zero(2); Mat C(2, 2); C << rl("p", 0.2, 3), 0, 0, rl("q", 0.2, 3); C(0, 1) = C(1, 0) = rl("r", -1, 1); assume_pd(C); eq(chi_squared_cdf(z, C), 0, "no deviation from the mean", 1e-15);
}

// the distribution of a deviation with a covariance is that of its Mahalanobis distance, whatever the covariance's off diagonal
HARNESS(deviation_covariance) {
  int n = symx::choose("n", 1, 3); Mat L = Mat::Zero(n, n); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) L(i, j) = i == j ? 0.5 + 0.75 * i : 0.25 * (i + 1) - 0.5 * j; Mat C = L * L.transpose(); double a = rl("a", 0.3, 1.5); int k = symx::choose("k", 0, n - 1);
  Vec e = Vec::Zero(n); e[k] = a; Vec d = L * e; double v = chi_squared_cdf(d, C), s = a * a; eq(v, chi_squared_cdf(s, double(n)), "distribution of the squared Mahalanobis distance", 1e-6);
}
