// @bounds: every distance in [0,50], length scale in [-2,20] and variance parameter in [-5,5] symbolic; scalar features and vectors of dimension 1 to 3; up to 3 features per matrix
// @assume: exp, log, acos are functions with their elementary properties (monotone, tangent bounds); angular distances of non-zero vectors; numeric inversion of the Matern length scales (a Newton iteration) is outside
#include <albatross/Core>
#include <albatross/GP>
#include <albatross/CovarianceFunctions>
#include "common.hpp"
using namespace albatross; using namespace hx;
static const int KINDS = 4;
static double cov(int k, double d, double l, double s) { return k == 0 ? squared_exponential_covariance(d, l, s) : k == 1 ? exponential_covariance(d, l, s) : k == 2 ? matern_32_covariance(d, l, s) : matern_52_covariance(d, l, s); }
static double formula(int k, double d, double l, double s) { double r = d / l; if (k == 0) return s * s * std::exp(-(r * r)); if (k == 1) return s * s * std::exp(-r); if (k == 2) { double q = std::sqrt(3.) * r; return s * s * (1 + q) * std::exp(-q); } double q = std::sqrt(5.) * r; return s * s * (1 + q + q * q / 3) * std::exp(-q); }
HARNESS(formulas) { int k = symx::choose("kind", 0, KINDS - 1); double d = rl("d", 0, 50), l = rl("l", -2, 20), s = rl("s", -5, 5); symx::assume(l <= 0 || l >= 0.01); double got = cov(k, d, l, s); if (l <= 0) symx::check(got == 0, "degenerate length scale gives zero"); else symx::check_eq(got, formula(k, d, l, s), "defining formula"); }
HARNESS(at_zero) { int k = symx::choose("kind", 0, KINDS - 1); double l = rl("l", 0.01, 20), s = rl("s", -5, 5); symx::check_eq(cov(k, 0, l, s), s * s, "variance at zero distance"); double unit = k == 0 ? squared_exponential_covariance(0, l) : k == 1 ? exponential_covariance(0, l) : k == 2 ? matern_32_covariance(0, l) : matern_52_covariance(0, l); symx::check_eq(unit, 1, "unit variance by default"); }
HARNESS(never_exceeds) { int k = symx::choose("kind", 0, KINDS - 1); double d = rl("d", 0, 50), l = rl("l", 0.01, 20), s = rl("s", -5, 5); double c = cov(k, d, l, s); symx::check(c <= s * s + 1e-9, "never exceeds the variance"); symx::check(c >= 0, "never negative"); }
HARNESS(decreasing) { int k = symx::choose("kind", 0, KINDS - 1); double d = rl("d", 0, 20), e = rl("e", 0, 20); double c = cov(k, d, 1, 1), f = cov(k, d + e, 1, 1); symx::check(f <= c + 1e-9, "does not increase with distance"); }
HARNESS(scale_and_length) { int k = symx::choose("kind", 0, KINDS - 1); double d = rl("d", 0, 20), l = rl("l", 0.1, 10), s = rl("s", -5, 5); symx::check_eq(cov(k, d, l, s), s * s * cov(k, d, l, 1), "proportional to the variance"); symx::check_eq(cov(k, d * l, l, 1), cov(k, d, 1, 1), "depends on the distance over the length scale"); }
template <class C> static void model(C c, int kind, const char *ln, const char *sn) {
  double x = rl("x", -9, 9), y = rl("y", -9, 9), l = rl("l", 0.1, 10), s = rl("s", 0, 5); c.set_param(ln, Parameter(l)); c.set_param(sn, Parameter(s)); double d = x > y ? x - y : y - x; symx::check_eq(c(x, y), formula(kind, d, l, s), "kernel of the distance between features"); symx::check_eq(c(x, y), c(y, x), "symmetric"); symx::check_eq(c(x, x), s * s, "variance of a feature with itself"); symx::check(c.get_params().at(ln).value == l && c.get_params().at(sn).value == s, "parameters by name");
  std::vector<double> v = {x, y}; Mat M = c(v); symx::check_eq(M(0, 1), c(x, y), "matrix entry"); symx::check_eq(M(1, 0), c(x, y), "matrix entry, transposed"); symx::check_eq(M(1, 1), s * s, "matrix diagonal");
}
HARNESS(squared_exponential) { model(SquaredExponential<EuclideanDistance>(), 0, "squared_exponential_length_scale", "sigma_squared_exponential"); }
HARNESS(exponential) { model(Exponential<EuclideanDistance>(), 1, "exponential_length_scale", "sigma_exponential"); }
HARNESS(matern_32) { model(Matern32<EuclideanDistance>(), 2, "matern_32_length_scale", "sigma_matern_32"); }
HARNESS(matern_52) { model(Matern52<EuclideanDistance>(), 3, "matern_52_length_scale", "sigma_matern_52"); }
HARNESS(constructors) { double l = rl("l", 0.1, 5), s = rl("s", 0, 5), x = rl("x", -3, 3), y = rl("y", -3, 3), d = x > y ? x - y : y - x; symx::check_eq(SquaredExponential<EuclideanDistance>(l, s)(x, y), formula(0, d, l, s), "length scale then sigma"); symx::check_eq(Exponential<EuclideanDistance>(l, s)(x, y), formula(1, d, l, s), "length scale then sigma"); symx::check_eq(Matern32<EuclideanDistance>(l, s)(x, y), formula(2, d, l, s), "length scale then sigma"); symx::check_eq(Matern52<EuclideanDistance>(l, s)(x, y), formula(3, d, l, s), "length scale then sigma"); }
// ---- positive semi-definiteness of three points on a line (exponential): correlations p, q and pq ----
HARNESS(exponential_semidefinite) { double p = rl("p", 0.01, 0.99), q = rl("q", 0.01, 0.99); double x0 = 0, x1 = -2 * std::log(p), x2 = x1 - 2 * std::log(q); Exponential<EuclideanDistance> c(2., 1.); std::vector<double> xs = {x0, x1, x2}; Mat M = c(xs); symx::check_eq(M(0, 1), p, "correlation of neighbours"); symx::check_eq(M(0, 2), p * q, "correlations along a line multiply"); double dt = 1 + 2 * M(0, 1) * M(1, 2) * M(0, 2) - M(0, 1) * M(0, 1) - M(1, 2) * M(1, 2) - M(0, 2) * M(0, 2); symx::check(dt >= -1e-9, "determinant is not negative"); symx::check(1 - M(0, 2) * M(0, 2) >= 0, "minors are not negative"); }
// ---- length scale from an increase in standard deviation ----
HARNESS(derived_exponential) { double d = rl("d", 0.1, 10), s = rl("s", 0.1, 5), r = rl("r", 0.01, 0.99); double l = derive_exponential_length_scale(d, s, r * s); symx::check(l > 0, "positive length scale"); double inc = process_noise_equivalent([&](double x) { return exponential_covariance(x, l, s); }, d); symx::check_eq(inc * inc, r * s * r * s, "the increase asked for at the reference distance"); symx::check_eq(Exponential<EuclideanDistance>().derive_length_scale(d, s, r * s), l, "member function"); }
HARNESS(derived_squared_exponential) { double d = rl("d", 0.1, 10), s = rl("s", 0.1, 5), r = rl("r", 0.01, 0.99); double l = derive_squared_exponential_length_scale(d, s, r * s); symx::check(l > 0, "positive length scale"); double inc = process_noise_equivalent([&](double x) { return squared_exponential_covariance(x, l, s); }, d); symx::check_eq(inc * inc, r * s * r * s, "the increase asked for at the reference distance"); symx::check_eq(SquaredExponential<EuclideanDistance>().derive_length_scale(d, s, r * s), l, "member function"); }
HARNESS(derived_degenerate) { int k = symx::choose("kind", 0, KINDS - 1); double d = rl("d", 0.1, 10), s = rl("s", -1, 5), i = rl("i", -1, 6); if (s > 0 && i > 0) symx::assume(i >= s); double l = k == 0 ? derive_squared_exponential_length_scale(d, s, i) : k == 1 ? derive_exponential_length_scale(d, s, i) : k == 2 ? derive_matern_32_length_scale(d, s, i) : derive_matern_52_length_scale(d, s, i); bool small = i > 0 && s > 0; symx::check_eq(l / d, small ? 1e-7 : 1e7, "shortest scale when the increase is out of reach, longest when there is none", 1e-9); }
HARNESS(derived_refused) { int k = symx::choose("kind", 0, KINDS - 1); double d = rl("d", -1, 1), s = 2, i = 1; symx::check(s > i, "reached"); symx::assume(k < 2 || d <= 0); if (d <= 0) symx_allow_abort_(1); double l = k == 0 ? derive_squared_exponential_length_scale(d, s, i) : k == 1 ? derive_exponential_length_scale(d, s, i) : k == 2 ? derive_matern_32_length_scale(d, s, i) : derive_matern_52_length_scale(d, s, i); symx::check(d > 0 && l > 0, "reference distances must be positive"); }
HARNESS(noise_equivalent) { double k0 = rl("k0", 0.1, 4), kd = rl("kd", -4, 4); symx::assume(kd <= k0 && kd >= -k0); double p = process_noise_equivalent([&](double d) { return d == 0 ? k0 : kd; }, 3.); symx::check_eq(p * p, k0 - kd * kd / k0, "standard deviation given the other point"); symx::check(p >= 0, "not negative"); }
// ---- distances ----
template <int N> static Eigen::Matrix<double, N, 1> pt(const char *t) { Eigen::Matrix<double, N, 1> v; for (int i = 0; i < N; i++) v[i] = rl(nm(t, i), -5, 5); return v; }
template <int N> static void euclid() { auto x = pt<N>("x"), y = pt<N>("y"); EuclideanDistance e; double d = e(x, y), q = 0; for (int i = 0; i < N; i++) q += (x[i] - y[i]) * (x[i] - y[i]); symx::check(d >= 0, "not negative"); symx::check_eq(d * d, q, "square root of the summed squares"); symx::check_eq(e(y, x), d, "symmetric"); symx::check_eq(e(x, x), 0, "zero between equal points"); }
HARNESS(euclidean) { int n = symx::choose("n", 0, 3); if (n == 0) { double x = rl("x", -5, 5), y = rl("y", -5, 5); EuclideanDistance e; double d = e(x, y); symx::check(d >= 0 && (d == x - y || d == y - x), "absolute difference"); symx::check(e(y, x) == d && e(x, x) == 0, "symmetric, zero between equal points"); } else if (n == 1) euclid<1>(); else if (n == 2) euclid<2>(); else euclid<3>(); }
HARNESS(radial) { int n = symx::choose("n", 1, 2); Vec x = vec("x", n), y = vec("y", n); RadialDistance r; double d = r(x, y), a = 0, b = 0; for (int i = 0; i < n; i++) { a += x[i] * x[i]; b += y[i] * y[i]; } a = std::sqrt(a); b = std::sqrt(b); symx::check(d >= 0, "not negative"); symx::check_eq(d, a > b ? a - b : b - a, "difference of the norms"); symx::check_eq(r(y, x), d, "symmetric"); symx::check_eq(r(x, x), 0, "zero between equal points"); symx::check_eq(r(x, -x), 0, "zero between points of equal norm"); }
HARNESS(angular) { Eigen::Vector2d x = pt<2>("x"), y = pt<2>("y"); double xx = x.dot(x), yy = y.dot(y); symx::assume(xx > 0.01 && yy > 0.01); AngularDistance a; double d = a(x, y); symx::check(d >= 0 && d <= 3.14159266, "between zero and a half turn"); symx::check_eq(a(y, x), d, "symmetric"); symx::check_eq(a(x, x), 0, "zero between equal points", 1e-6); double c = x.dot(y) / (std::sqrt(xx) * std::sqrt(yy)); if (c < 0.999 && c > -0.999) symx::check_eq(d, std::acos(c), "angle between the vectors"); Eigen::Vector2d z = -x; symx::check_eq(a(x, z), 3.14159265358979323846, "half a turn between opposite vectors", 1e-6); }
HARNESS(angular_scale) { Eigen::Vector2d x(3., 4.), y; y << rl("y0", -5, 5), rl("y1", -5, 5); symx::assume(y.dot(y) > 0.01); double s = rl("s", 0.1, 5); AngularDistance a; symx::check_eq(a(Eigen::Vector2d(s * x), y), a(x, y), "depends on directions only"); Eigen::Vector2d w = s * x; symx::check_eq(a(x, w), 0, "parallel vectors", 1e-6); }
HARNESS(matrices) { int n = symx::choose("n", 0, 3); std::vector<double> xs; for (int i = 0; i < n; i++) xs.push_back(rl(nm("x", i), -5, 5)); Mat D = distance_matrix(EuclideanDistance(), xs); symx::check(D.rows() == n && D.cols() == n, "size"); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double d = xs[i] > xs[j] ? xs[i] - xs[j] : xs[j] - xs[i]; symx::check(D(i, j) == d, "distance of every pair"); } }
HARNESS(angular_kernel) { Eigen::Vector2d x = pt<2>("x"), y = pt<2>("y"); symx::assume(x.dot(x) > 0.01 && y.dot(y) > 0.01); Exponential<AngularDistance> c(2., 3.); double k = c(x, y); symx::check_eq(k, 9 * std::exp(-AngularDistance()(x, y) / 2), "kernel of the angle"); symx::check_eq(c(y, x), k, "symmetric"); symx::check(k <= 9 + 1e-9 && k > 0, "never exceeds the variance"); symx::check_eq(c(x, x), 9, "variance of a feature with itself", 1e-5); }
HARNESS(radial_kernel) { Vec x = vec("x", 2), y = vec("y", 2); SquaredExponential<RadialDistance> c(2., 3.); double d = RadialDistance()(x, y); symx::check_eq(c(x, y), 9 * std::exp(-d * d / 4), "kernel of the radial distance"); symx::check_eq(c(x, x), 9, "variance of a feature with itself"); }
// ---- grids representing a kernel's state space ----
HARNESS(grids) {
  int kind = symx::choose("kind", 0, 1), n = symx::choose("n", 1, 3); double l = rl("l", 1, 4); std::vector<double> xs; double lo = 0, hi = 0; for (int i = 0; i < n; i++) { double x = rl(nm("x", i), 0, 0.5); xs.push_back(x); if (i == 0 || x < lo) lo = x; if (i == 0 || x > hi) hi = x; } std::vector<double> g; if (kind) g = Exponential<EuclideanDistance>(l, 1.).state_space_representation(xs); else g = SquaredExponential<EuclideanDistance>(l, 1.).state_space_representation(xs); symx::check(g.size() >= 3, "at least three points"); symx::check_eq(g.front(), lo, "starts at the smallest feature"); symx::check_eq(g.back(), hi, "ends at the largest feature"); double step = (hi - lo) / (g.size() - 1); for (size_t i = 1; i < g.size(); i++) symx::check_eq(g[i] - g[i - 1], step, "evenly spaced"); symx::check(step * (g.size() - 1) <= g.size() * l / (kind ? 20 : 10) + 1e-9, "fine enough for the length scale");
}
