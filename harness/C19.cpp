// @bounds: up to 4 predictions (3 for correlated ones) with every mean, truth, variance and weight symbolic; fixed covariances of dimension 3 with every pivot order for the sampled score, whose draws are the harness's own; 17 predictions (7 correlated); three units of measurement
// @assume: standard deviations at least 0.1 where positive is meant (zero is covered separately); the incomplete gamma function is an arbitrary function here (C26 decides it); the energy score's standard normal draws are replaced by chosen values
#include "symx.h"
#define ALBATROSS_STATS_INCOMPLETE_GAMMA_HPP_
namespace albatross { inline double incomplete_gamma(double a, double z) { return symx_app_("incomplete_gamma", a, z); } }
#include <random>
#include <vector>
static std::vector<double> zs_; static size_t zi_ = 0;
static double next_z() { double r = zi_ < zs_.size() ? zs_[zi_] : 0.; zi_++; return r; }
namespace std {
template <> template <> inline double normal_distribution<double>::operator()<minstd_rand0>(minstd_rand0 &) { return next_z(); }
template <> template <> inline double normal_distribution<double>::operator()<mt19937>(mt19937 &) { return next_z(); }
template <> template <> inline double normal_distribution<double>::operator()<mt19937_64>(mt19937_64 &) { return next_z(); }
} // namespace std
#include <albatross/Core>
#include <albatross/GP>
#include <albatross/Evaluation>
#include <albatross/CovarianceFunctions>
#include "common.hpp"
using namespace albatross; using namespace hx;
static void eq(double a, double b, const char *l, double tol = 1e-6) { symx::check_eq(a, b, l, tol); }
static const double RPI = std::sqrt(M_PI), R2 = std::sqrt(2.), R2PI = std::sqrt(2 * M_PI);

HARNESS(errors) {
  int n = symx::choose("n", 1, 4); Vec p = vec("p", n), t = vec("t", n), v = vec("v", n, 0, 3); MarginalDistribution truth(t, v);
  double s = 0, m = 0; for (int i = 0; i < n; i++) { s += (p[i] - t[i]) * (p[i] - t[i]); m += (p[i] - t[i]) / n; }
  double r = root_mean_square_error(p, t); symx::check(r >= 0, "not negative"); eq(r * r, s / n, "mean of the squared errors");
  double q = RootMeanSquareError()(p, truth); eq(q, r, "metric ignores the truth's variance");
  double d = standard_deviation(p, t), var = 0; for (int i = 0; i < n; i++) var += (p[i] - t[i] - m) * (p[i] - t[i] - m);
  symx::check(d >= 0, "deviation is not negative"); if (n == 1) eq(d, 0, "one error has no deviation"); else eq(d * d, var / (n - 1), "unbiased variance of the errors");
  eq(StandardDeviation()(p, truth), d, "deviation metric"); eq(root_mean_square_error(p, p), 0, "zero for a perfect prediction"); eq(standard_deviation(t, t), 0, "no deviation of a perfect prediction");
  Vec a(n), b(n); for (int i = 0; i < n; i++) { a[i] = p[n - 1 - i]; b[i] = t[n - 1 - i]; } eq(root_mean_square_error(a, b), r, "order of the predictions"); eq(standard_deviation(a, b), d, "order of the predictions, deviation");
}
HARNESS(empty_errors) { Vec e(0); double d = standard_deviation(e, e); symx::check(std::isnan(d), "no deviation of nothing"); }
HARNESS(marginal_likelihood) {
  int n = symx::choose("n", 1, 3); Vec p = vec("p", n), t = vec("t", n), v = vec("v", n, 0.1, 3), w = vec("w", n, 0, 3); double want = 0.5 * n * std::log(2 * M_PI);
  for (int i = 0; i < n; i++) want += 0.5 * (std::log(v[i] + w[i]) + (p[i] - t[i]) * (p[i] - t[i]) / (v[i] + w[i]));
  eq(NegativeLogLikelihood<MarginalDistribution>()(MarginalDistribution(p, v), MarginalDistribution(t, w)), want, "likelihood under the sum of the variances");
  Vec z = Vec::Zero(n); double none = negative_log_likelihood(MarginalDistribution(p, v), MarginalDistribution(t)), zero = negative_log_likelihood(MarginalDistribution(p, v), MarginalDistribution(t, z)); eq(none, zero, "no truth variance is zero variance");
}
HARNESS(joint_likelihood) {
  Vec p = vec("p", 2), t = vec("t", 2), w = vec("w", 2, 0, 2); Mat C(2, 2); C << rl("a", 0.2, 3), 0, 0, rl("b", 0.2, 3); C(0, 1) = C(1, 0) = rl("c", -2, 2); assume_pd(C); JointDistribution j(p, C); MarginalDistribution truth(t, w);
  double a = C(0, 0) + w[0], b = C(1, 1) + w[1], c = C(0, 1), D = a * b - c * c, d0 = p[0] - t[0], d1 = p[1] - t[1], q = (b * d0 * d0 - 2 * c * d0 * d1 + a * d1 * d1) / D;
  eq(NegativeLogLikelihood<>()(j, truth), 0.5 * (std::log(D) + q) + std::log(2 * M_PI), "joint likelihood");
  eq(ChiSquaredCdf()(j, truth), chi_squared_cdf(q, 2), "probability of a smaller Mahalanobis distance");
  Mat P(2, 2); P << C(1, 1), c, c, C(0, 0); Vec p2(2), t2(2), w2(2); p2 << p[1], p[0]; t2 << t[1], t[0]; w2 << w[1], w[0]; eq(chi_squared_cdf(JointDistribution(p2, P), MarginalDistribution(t2, w2)), chi_squared_cdf(q, 2), "order of the predictions");
}
HARNESS(chi_squared_3) {
  // dyadic Cholesky factor, so that the distance is exact in the arithmetic of the code
  Vec p = vec("p", 3), t = vec("t", 3), w(3); w << 0.5, 0, 2; Mat A(3, 3); A << 4, 2, 1, 2, 2, -0.5, 1, -0.5, 5.25; Mat C = A; for (int i = 0; i < 3; i++) C(i, i) -= w[i];
  double e0 = (p[0] - t[0]) / 2, e1 = p[1] - t[1] - e0, e2 = (p[2] - t[2] - 0.5 * e0 + e1) / 2, q = e0 * e0 + e1 * e1 + e2 * e2;
  eq(ChiSquaredCdf()(JointDistribution(p, C), MarginalDistribution(t, w)), chi_squared_cdf(q, 3), "probability of a smaller Mahalanobis distance"); eq(ChiSquaredCdf()(JointDistribution(p, C), MarginalDistribution(p, w)), 0, "zero for the exact truth");
}
HARNESS(chi_squared_values) { double x = rl("x", -2, 50); int k = symx::choose("k", 0, 4); double c = chi_squared_cdf(x, k); if (x < 0) symx::check(std::isnan(c), "no probability of a negative distance"); else if (k == 0) eq(c, 1, "no degrees of freedom"); else if (x > 1e-12) eq(c, symx_app_("incomplete_gamma", 0.5 * k, 0.5 * x), "lower incomplete gamma of half the dof and half the distance"); double d = rl("d", -3, 3), v = rl("v", 0.1, 4); if (d * d > 1e-6) eq(chi_squared_cdf(d, v, std::size_t(1)), symx_app_("incomplete_gamma", 0.5, d * d / v * 0.5), "normalised by the variance"); eq(chi_squared_cdf(double(INFINITY), k), 1, "one at infinity"); }
// ---- CRPS ----
HARNESS(crps) {
  double m = rl("m", -3, 3), s = rl("s", 0.1, 3), y = rl("y", -3, 3), z = (y - m) / s; double c = score::crps_normal(m, s, y);
  eq(c, s * (z * std::erf(z / R2) + 2 * std::exp(-z * z / 2) / R2PI - 1 / RPI), "closed form of the score"); eq(score::crps_normal(y, s, m), c, "depends on the error's size only"); eq(score::crps_normal(m, s, m), s * (R2 - 1) / RPI, "score of an exact mean");
}
HARNESS(crps_degenerate) {
  double m = rl("m", -3, 3), y = rl("y", -3, 3), s = rl("s", -1, 0); double c = score::crps_normal(m, s, y); symx::check(c == (m < y ? y - m : m - y), "absolute error without a variance");
  double bad[] = {double(NAN), double(INFINITY), -double(INFINITY)}; double b = bad[symx::choose("b", 0, 2)]; int w = symx::choose("w", 0, 2); symx::check(std::isnan(score::crps_normal(w == 0 ? b : m, w == 1 ? b : 1., w == 2 ? b : y)), "not a number in, not a number out");
}
// ---- energy score ----
static Mat cov3(int o) { Mat C(3, 3); const double d[3] = {6, 3, 1.5}; static const int pr[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; Mat B(3, 3); B << 6, 1.5, -0.5, 1.5, 3, 0.75, -0.5, 0.75, 1.5; (void)d; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) C(pr[o][i], pr[o][j]) = B(i, j); return C; }
// the squared size of one draw, found from the score of a prediction at its own mean
static double spread(const JointDistribution &p, const Vec &w, int at, double t) { zs_.assign(12, 0.); zs_[at] = t; zs_[at + 6] = t; zi_ = 0; double s = score::energy_score(p, p.mean, &w, 3, 2); symx::check(zi_ == 12, "two independent sets of draws"); return s; }
HARNESS(energy_draws) {
  // equal draws in both sets leave only the first term; summed over unit draws it is the weighted trace of the covariance
  int o = symx::choose("order", 0, 5); Mat C = cov3(o); Vec w(3), m = vec("m", 3); for (int i = 0; i < 3; i++) w[i] = symx::choose("unit", 0, 2) == i ? 1. : 0.25 * i;
  double sum = 0; for (int a = 0; a < 6; a++) { double s = spread(JointDistribution(m, C), w, a, 1.) * 2; sum += s * s; }
  double want = 0; for (int i = 0; i < 3; i++) want += 2 * w[i] * C(i, i); eq(sum, want, "draws have the prediction's variances", 1e-6);
}
HARNESS(energy_cross) {
  // distance to a truth off the mean: recovers every covariance
  int o = symx::choose("order", 0, 5); Mat C = cov3(o); Vec d(3); int u = symx::choose("u", 0, 2); d << (u == 0 ? 0. : 1.), (u == 1 ? 0. : 1.), (u == 2 ? 0. : -2.); Vec one = Vec::Ones(3), m(3); m << 1, -2, 0.5; JointDistribution p(m, C); double dd = d.dot(d), sum = 0;
  for (int a = 0; a < 6; a++) { double n = spread(p, one, a, 1.) * 2; zs_.assign(12, 0.); zs_[a] = zs_[a + 6] = 1; zi_ = 0; double s = score::energy_score(p, Vec(m + d), nullptr, 3, 2) * 4 - 2 * std::sqrt(dd); double ab = (s * s - 2 * (n * n + dd)) / 2; double P = n * n + dd; sum += (P * P - ab * ab) / 4; }
  double want = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) want += 2 * d[i] * C(i, j) * d[j]; eq(sum, want, "draws have the prediction's covariance", 1e-6);
}
HARNESS(energy_weights) {
  // one set of draws at the mean, the other moved along one axis: the two terms cancel whatever the weights
  Mat C = Mat::Identity(3, 3) * 4; Vec w = vec("w", 3, 0.1, 4), m = vec("m", 3); zs_.assign(12, 0.); zs_[symx::choose("at", 0, 11)] = 1; zi_ = 0; double s = score::energy_score(JointDistribution(m, C), m, &w, 3, 2); eq(s, 0, "both terms use the same weights");
}
HARNESS(energy_1) {
  double m = rl("m", -3, 3), y = rl("y", -3, 3), sd = rl("sd", 0.25, 2), w = rl("w", 0.1, 4); Vec mm(1), yy(1), ww(1); mm << m; yy << y; ww << w; Mat C(1, 1); C << sd * sd; double z0 = 0.5, z1 = -1.5, z2 = 1., z3 = symx::choose("z3", 0, 1) ? 2. : -0.5; zs_ = {z0, z1, z2, z3}; zi_ = 0;
  auto ab = [](double x) { return x < 0 ? -x : x; }; double e = 0, q = 0, z[4] = {z0, z1, z2, z3}; for (int i = 0; i < 4; i++) e += ab(m + sd * z[i] - y) + ab(m - sd * z[i] - y); for (int i = 0; i < 2; i++) q += 2 * ab(sd * z[i] - sd * z[i + 2]);
  double want = std::sqrt(w) * (e / 8 - 0.5 * q / 4); symx::assume(want > 0.01); eq(score::energy_score(JointDistribution(mm, C), yy, &ww, 3, 2), want, "mean distance to the truth less half the mean distance of pairs");
}
HARNESS(energy_truth_variance) { Mat C = cov3(symx::choose("order", 0, 5)); Vec m = vec("m", 3), v(3); v << 1, 0.5, 2; Mat A = C; for (int i = 0; i < 3; i++) A(i, i) += v[i]; double sum = 0, want = 0; for (int a = 0; a < 6; a++) { zs_.assign(12, 0.); zs_[a] = zs_[a + 6] = 1; zi_ = 0; double s = 2 * score::energy_score(JointDistribution(m, C), MarginalDistribution(m, v), nullptr, 3, 2); sum += s * s; } for (int i = 0; i < 3; i++) want += 2 * A(i, i); eq(sum, want, "uncertain truth adds its variance"); }
// ---- variogram score ----
static double eabs(double m, double s) { double a = m < 0 ? -m : m; return s * R2 / RPI * std::exp(-m * m / (2 * s * s)) + a * std::erf(a / s / R2); }
HARNESS(variogram) {
  Vec p = vec("p", 3), t = vec("t", 3); Mat C = Mat::Zero(3, 3), W = Mat::Zero(3, 3); for (int i = 0; i < 3; i++) for (int j = 0; j <= i; j++) { C(i, j) = C(j, i) = rl(nm("c", i, j), i == j ? 0.5 : -1, i == j ? 4 : 1); W(i, j) = W(j, i) = rl(nm("w", i, j), 0, 2); } assume_pd(C); double want = 0, unit = 0;
  for (int i = 0; i < 3; i++) for (int j = i + 1; j < 3; j++) { double d = (t[i] - t[j]) * (t[i] - t[j]) - ((p[i] - p[j]) * (p[i] - p[j]) + C(i, i) + C(j, j) - 2 * C(i, j)); want += W(i, j) * d * d; unit += d * d; }
  JointDistribution j(p, C); eq(score::variogram_score(j, t, &W, score::VariogramScoreOrder::cVariogram), want, "weighted squares over pairs"); eq(score::variogram_score(j, t, nullptr, score::VariogramScoreOrder::cVariogram), unit, "unit weights by default");
}
HARNESS(variogram_truth_variance) { Vec p = vec("p", 2), t = vec("t", 2), v = vec("v", 2, 0, 2); Mat C(2, 2); C << 2, 0.5, 0.5, 1; double d = (t[0] - t[1]) * (t[0] - t[1]) - ((p[0] - p[1]) * (p[0] - p[1]) + 2 + v[0] + v[1]); eq(score::variogram_score(JointDistribution(p, C), MarginalDistribution(t, v), nullptr, score::VariogramScoreOrder::cVariogram), d * d, "uncertain truth adds its variance"); }
HARNESS(madogram) {
  // one truth and one mean vary at a time among the three
  int n = symx::choose("n", 2, 3), k = symx::choose("k", 0, 2); Vec p(n), t(n); const double p0[3] = {0.5, -1, 2}, t0[3] = {1, 0.25, -0.5}; for (int i = 0; i < n; i++) { p[i] = p0[i]; t[i] = t0[i]; } if (k < n) { if (symx::choose("vary", 0, 1)) t[k] = rl("t", -3, 3); else p[k] = rl("p", -3, 3); } Mat C = Mat::Zero(n, n); for (int i = 0; i < n; i++) C(i, i) = 1 + i; C(0, 1) = C(1, 0) = 1; if (n == 3) C(1, 2) = C(2, 1) = 0.5; double want = 0; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { double s = std::sqrt(C(i, i) + C(j, j) - 2 * C(i, j)), e = t[i] - t[j]; double d = (e < 0 ? -e : e) - eabs(p[i] - p[j], s); want += d * d; }
  eq(score::variogram_score(JointDistribution(p, C), t), want, "absolute differences against their expectation");
}
HARNESS(madogram_deviation) { double s0 = rl("s0", 0.3, 2), s1 = rl("s1", 0.3, 2); Vec p(2), t(2); p << 1, -0.5; t << rl("t", -3, 3), 0; Mat C = Mat::Zero(2, 2); C(0, 0) = s0; C(1, 1) = s1; double s = std::sqrt(s0 + s1), e = t[0] < 0 ? -t[0] : t[0], d = e - eabs(1.5, s); eq(score::variogram_score(JointDistribution(p, C), t), d * d, "any deviation"); }
HARNESS(madogram_units) { // the unit of measurement only scales the score
  double u = symx::choose("u", 0, 2) - 1.; u = u < 0 ? 1e-6 : u > 0 ? 1e6 : 1; Vec p(2), t(2); double e = rl("t", -3, 3); p << u, -0.5 * u; t << e * u, 0; Mat C = Mat::Zero(2, 2); C(0, 0) = u * u; C(1, 1) = 1.25 * u * u; double d = (e < 0 ? -e : e) - eabs(1.5, 1.5); eq(score::variogram_score(JointDistribution(p, C), t) / (u * u), d * d, "in any unit"); }
HARNESS(madogram_degenerate) { Vec p = vec("p", 2), t = vec("t", 2); Mat C = Mat::Constant(2, 2, rl("c", 0.5, 2)); auto ab = [](double x) { return x < 0 ? -x : x; }; double d = ab(t[0] - t[1]) - ab(p[0] - p[1]); eq(score::variogram_score(JointDistribution(p, C), t), d * d, "perfectly correlated predictions are deterministic differences"); eq(score::variogram_score(JointDistribution(p, C), p), 0, "zero for a perfect prediction"); Vec one(1); one << 2; Mat D = Mat::Identity(1, 1); eq(score::variogram_score(JointDistribution(one, D), one), 0, "nothing to compare"); }
HARNESS(score_sizes_refused) { int n = symx::choose("n", 1, 2), k = symx::choose("k", 1, 3), w = symx::choose("w", 0, 2), which = symx::choose("which", 0, 1); Vec m = Vec::Zero(n), t = Vec::Zero(k); Mat C = Mat::Identity(n, n); symx::check(n > 0, "reached"); bool ok = n == k && (w == 0 || w == n); if (!ok) symx_allow_abort_(1); zs_.clear(); zi_ = 0; if (which) { Vec wv = Vec::Ones(w); score::energy_score(JointDistribution(m, C), t, w ? &wv : nullptr, 1, 2); } else { Mat wm = Mat::Ones(w, w); score::variogram_score(JointDistribution(m, C), t, w ? &wm : nullptr); } symx::check(ok, "mismatching sizes are refused"); }
// ---- Wasserstein distance ----
HARNESS(wasserstein_1) { double a = rl("a", -3, 3), b = rl("b", -3, 3), s = rl("s", 0.1, 2), r = rl("r", 0.1, 2); Vec ma(1), mb(1); ma << a; mb << b; Mat A(1, 1), B(1, 1); A << s * s; B << r * r; JointDistribution x(ma, A), y(mb, B); double w = distance::wasserstein_2(x, y); eq(w, (a - b) * (a - b) + (s - r) * (s - r), "squared differences of means and deviations"); eq(distance::wasserstein_2(y, x), w, "symmetric"); eq(distance::wasserstein_2(x, x), 0, "zero from itself"); }
HARNESS(wasserstein_2) { Vec ma = vec("a", 2), mb = vec("b", 2); Mat A = Mat::Zero(2, 2), B = Mat::Zero(2, 2); double s[2], r[2], want = 0; for (int i = 0; i < 2; i++) { s[i] = rl(nm("s", i), 0.2, 2); r[i] = rl(nm("r", i), 0.2, 2); A(i, i) = s[i] * s[i]; B(i, i) = r[i] * r[i]; want += (ma[i] - mb[i]) * (ma[i] - mb[i]) + (s[i] - r[i]) * (s[i] - r[i]); } eq(distance::wasserstein_2(JointDistribution(ma, A), JointDistribution(mb, B)), want, "independent dimensions"); }
HARNESS(wasserstein_numeric) { Vec ma = vec("a", 3), mb = vec("b", 3); Mat A = cov3(symx::choose("order", 0, 5)); double d = 0; for (int i = 0; i < 3; i++) d += (ma[i] - mb[i]) * (ma[i] - mb[i]); eq(distance::wasserstein_2(JointDistribution(ma, A), JointDistribution(mb, A)), d, "equal covariances leave the means"); eq(distance::wasserstein_2(JointDistribution(ma, A), JointDistribution(mb, Mat(4 * A))), d + A.trace(), "scaled covariance"); eq(distance::wasserstein_2(JointDistribution(ma, Mat::Zero(3, 3)), JointDistribution(mb, A)), d + A.trace(), "distance from a point mass", 1e-5); }
// ---- model metrics ----
HARNESS(prediction_objects) {
  // metrics of a lazy prediction ask for the form they need
  zero_tables(); num_kernel(4); auto f = pts(0, 2), g = pts(2, 2); for (int i = 0; i < 4; i++) W[i] = 0.25; Vec y = vec("y", 2), t = vec("t", 2), v = vec("v", 2, 0, 2); auto fit = table_gp().fit(RegressionDataset<Pt>(f, MarginalDistribution(y))); auto pr = fit.predict(g); MarginalDistribution truth(t, v);
  eq(RootMeanSquareError()(pr, truth), root_mean_square_error(pr.mean(), t), "error of the mean"); eq(NegativeLogLikelihood<JointDistribution>()(pr, truth), negative_log_likelihood(pr.joint(), truth), "joint likelihood"); eq(NegativeLogLikelihood<MarginalDistribution>()(pr, truth), negative_log_likelihood(pr.marginal(), truth), "marginal likelihood"); eq(StandardDeviation()(pr, truth), standard_deviation(pr.mean(), t), "deviation of the mean");
}
HARNESS(leave_out_metrics) {
  zero_tables(); num_kernel(3); for (int i = 0; i < 3; i++) { W[i] = 0.25; M[i] = 0; } auto f = pts(0, 3); Vec y = vec("y", 3); RegressionDataset<Pt> d(f, MarginalDistribution(y)); auto m = table_gp(); double sum = 0, nll = 0, grouped = 0;
  GroupFunction<Pt> group = [](const Pt &p) { return std::string(p.id == 1 ? "one" : "rest"); };
  for (int i = 0; i < 3; i++) { std::vector<Pt> tr, te{f[i]}; Vec yt(2); for (int j = 0, k = 0; j < 3; j++) if (j != i) { tr.push_back(f[j]); yt[k++] = y[j]; } Mat A = table(tr, tr); for (int j = 0; j < 2; j++) A(j, j) += 0.25; Gauss g = condition(A, yt, Vec::Zero(2), table(tr, te), table(te, te), Vec::Zero(1)); double e = g.mean[0] - y[i], var = g.cov(0, 0) + 0.25; sum += (e < 0 ? -e : e) / 3; nll += 0.5 * (std::log(2 * M_PI) + std::log(var) + e * e / var); if (i == 1) grouped += 0.5 * (std::log(2 * M_PI) + std::log(var) + e * e / var); }
  { std::vector<Pt> tr{f[1]}, te{f[0], f[2]}; Vec yt(1); yt << y[1]; Mat A = table(tr, tr); A(0, 0) += 0.25; Gauss g = condition(A, yt, Vec::Zero(1), table(tr, te), table(te, te), Vec::Zero(2)); Mat C = g.cov; C(0, 0) += 0.25; C(1, 1) += 0.25; Mat Ci = inv(C); double e[2] = {g.mean[0] - y[0], g.mean[1] - y[2]}, q = 0; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) q += e[i] * Ci(i, j) * e[j]; grouped += 0.5 * (2 * std::log(2 * M_PI) + std::log(det(C)) + q); }
  eq(LeaveOneOutRMSE()(d, m), sum, "mean of the leave one out errors", 1e-5); eq(LeaveOneOutLikelihood<>()(d, m), nll, "sum of the leave one out likelihoods", 1e-5); eq(LeaveOneGroupOutLikelihood<Pt>(group)(d, m), grouped, "sum of the leave one group out likelihoods", 1e-5);
}
HARNESS(large) { // more predictions
  int n = 17; Vec p = big_vec("p", n, 3), t = big_noise(n), v = Vec::Constant(n, 0.5); for (int i = 0; i < n; i++) { t[i] = 0.25 * ((i * 7) % 9); v[i] += 0.125 * i; } double s = 0, m = 0, nll = 0.5 * n * std::log(2 * M_PI); for (int i = 0; i < n; i++) { s += (p[i] - t[i]) * (p[i] - t[i]); m += (p[i] - t[i]) / n; nll += 0.5 * (std::log(v[i]) + (p[i] - t[i]) * (p[i] - t[i]) / v[i]); } double r = root_mean_square_error(p, t), d = standard_deviation(p, t), var = 0; for (int i = 0; i < n; i++) var += (p[i] - t[i] - m) * (p[i] - t[i] - m); eq(r * r, s / n, "mean of many squared errors"); eq(d * d, var / (n - 1), "unbiased variance of many errors"); eq(negative_log_likelihood(MarginalDistribution(p, v), MarginalDistribution(t)), nll, "likelihood of many");
  int k = 7; big_kernel(k); Mat C = table(pts(0, k), pts(0, k)); Vec q = p.head(k), u = t.head(k), w = v.head(k); Mat Cw = C; for (int i = 0; i < k; i++) Cw(i, i) += w[i]; Mat I = inv(Cw); double h = 0; for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) h += (q[i] - u[i]) * I(i, j) * (q[j] - u[j]); eq(NegativeLogLikelihood<>()(JointDistribution(q, C), MarginalDistribution(u, w)), 0.5 * (std::log(det(Cw)) + h + k * std::log(2 * M_PI)), "joint likelihood of many"); double vs = 0; for (int i = 0; i < k; i++) for (int j = i + 1; j < k; j++) { double e = (u[i] - u[j]) * (u[i] - u[j]) - ((q[i] - q[j]) * (q[i] - q[j]) + C(i, i) + C(j, j) - 2 * C(i, j)); vs += e * e; } eq(score::variogram_score(JointDistribution(q, C), u, nullptr, score::VariogramScoreOrder::cVariogram), vs, "every pair of many", 1e-5);
  Vec mb = big_vec("mb", k, 2); double dist = 0; for (int i = 0; i < k; i++) dist += (q[i] - mb[i]) * (q[i] - mb[i]); eq(distance::wasserstein_2(JointDistribution(q, C), JointDistribution(mb, C)), dist, "equal covariances of many leave the means", 1e-5);
}
