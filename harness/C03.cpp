// @bounds: dimensions 1-3 (dense covariance symbolic at dimension 2, fixed plus a symbolic diagonal at 3); Gaussian processes with 1-2 training points; every deviation, variance, mean and prior parameter symbolic; 14 dimensions with a fixed covariance; three units of measurement
// @assume: covariances positive definite with leading minors >= 0.05; variances in [0.01, 10]
#include <albatross/GP>
#include <albatross/CovarianceFunctions>
#include <albatross/Evaluation>
#include "common.hpp"
using namespace albatross; using namespace hx;
static const double L2PI = std::log(2 * M_PI);
static double ref_nll(const Vec &d, const Mat &C) {
  Mat Ci = inv(C); double q = 0; for (int i = 0; i < d.size(); i++) for (int j = 0; j < d.size(); j++) q += d[i] * Ci(i, j) * d[j];
  return 0.5 * (std::log(det(C)) + q + d.size() * L2PI);
}
HARNESS(scalar) {
  double d = rl("d", -5, 5), v = rl("v", 0.01, 10); double r = 0.5 * (std::log(v) + d * d / v + L2PI);
  symx::check_eq(negative_log_likelihood(d, v), r, "scalar"); symx::check_eq(gaussian::log_pdf(d, v), -r, "log pdf");
  Vec dv(1); dv << d; Mat C(1, 1); C << v; symx::check_eq(negative_log_likelihood(dv, C), r, "dense of size one");
  symx::check_eq(negative_log_likelihood(dv, C.ldlt()), r, "factorisation of size one");
  symx::check_eq(gaussian::pdf(d, v) * std::sqrt(2 * M_PI * v), std::exp(-d * d / (2 * v)), "pdf");
}
HARNESS(dense2) {
  Vec d = vec("d", 2); Mat C(2, 2); C(0, 0) = rl("a", 0.1, 4); C(1, 1) = rl("b", 0.1, 4); C(0, 1) = C(1, 0) = rl("c", -2, 2); assume_pd(C);
  double r = ref_nll(d, C); symx::check_eq(negative_log_likelihood(d, C), r, "dense"); symx::check_eq(negative_log_likelihood(d, C.ldlt()), r, "factorisation");
  symx::check_eq(log_determinant_of_symmetric(C.ldlt()), std::log(det(C)), "log determinant");
  symx::check_eq(differential_entropy(C), 0.5 * (2 * (1 + L2PI) + std::log(det(C))), "entropy"); symx::check_eq(differential_entropy(C.ldlt()), 0.5 * (2 * (1 + L2PI) + std::log(det(C))), "entropy of a factorisation");
  // metric: the truth's own variance adds to the prediction's
  Vec m = vec("m", 2), t = vec("t", 2), s = vec("s", 2, 0, 2); Mat Cs = C; for (int i = 0; i < 2; i++) Cs(i, i) = Cs(i, i) + s[i];
  JointDistribution jp(m, C); MarginalDistribution truth(t, s);
  symx::check_eq(NegativeLogLikelihood<JointDistribution>()(jp, truth), ref_nll(m - t, Cs), "joint metric");
}
HARNESS(dense3) {
  zero_tables(); num_kernel(3); Vec d = vec("d", 3); Mat C = table(pts(0, 3), pts(0, 3)); for (int i = 0; i < 3; i++) C(i, i) = C(i, i) + rl(nm("s", i), 0, 4);
  double r = ref_nll(d, C); symx::check_eq(negative_log_likelihood(d, C), r, "dense of size three");
  symx::check_eq(differential_entropy(C), 0.5 * (3 * (1 + L2PI) + std::log(det(C))), "entropy of size three");
}
HARNESS(diagonal) {
  Vec d = vec("d", 3), v = vec("v", 3, 0.01, 10); Eigen::DiagonalMatrix<double, Eigen::Dynamic> D(v); double r = 0; for (int i = 0; i < 3; i++) r += 0.5 * (std::log(v[i]) + d[i] * d[i] / v[i] + L2PI);
  symx::check_eq(negative_log_likelihood(d, D), r, "diagonal");
  Vec t = vec("t", 3), s = vec("s", 3, 0, 2); double rs = 0; for (int i = 0; i < 3; i++) { double e = d[i] - t[i], w = v[i] + s[i]; rs += 0.5 * (std::log(w) + e * e / w + L2PI); }
  symx::check_eq(NegativeLogLikelihood<MarginalDistribution>()(MarginalDistribution(d, v), MarginalDistribution(t, s)), rs, "marginal metric");
}
struct Tuned : public CovarianceFunction<Tuned> {
  ALBATROSS_DECLARE_PARAMS(scale, other);
  Tuned() { scale = Parameter(1., UniformPrior(0.25, 4.)); other = Parameter(1., FixedPrior()); }
  std::string name() const { return "tuned"; }
  double _call_impl(const Pt &a, const Pt &b) const { return scale.value * K[a.id][b.id]; }
};
static void process(int n) {
  zero_tables(); sym_kernel(n); for (int i = 0; i < n; i++) { M[i] = rl(nm("m", i), -3, 3); W[i] = rl(nm("w", i), 0, 1); }
  Vec y = vec("y", n), s = vec("s", n, 0, 2); auto f = pts(0, n);
  auto model = gp_from_covariance_and_mean(Tuned() + measurement_only(TableNoise()), TableMean(), "tuned");
  model.set_param_value("scale", 2.);
  Mat A = 2. * table(f, f); for (int i = 0; i < n; i++) A(i, i) = A(i, i) + W[i];
  Mat As = A; for (int i = 0; i < n; i++) As(i, i) = As(i, i) + s[i];
  assume_pd(A, 0.5); Vec d = y - means(f); double prior = -std::log(4. - 0.25);
  symx::check_eq(model.log_likelihood(RegressionDataset<Pt>(f, y)), -ref_nll(d, A) + prior, "process likelihood");
  RegressionDataset<Pt> ds(f, MarginalDistribution(y, s));
  symx::check_eq(model.log_likelihood(ds), -ref_nll(d, As) + prior, "process likelihood with target variances");
  symx::check_eq(GaussianProcessNegativeLogLikelihood()(ds, model), ref_nll(d, As) - prior, "process metric");
}
HARNESS(process1) { process(1); }
HARNESS(process2) { process(2); }
HARNESS(leave_one_out) { // sum of the scores of the held out predictions less the log prior
  zero_tables(); sym_kernel(2); for (int i = 0; i < 2; i++) M[i] = rl(nm("m", i), -3, 3); Vec y = vec("y", 2); auto f = pts(0, 2);
  auto model = gp_from_covariance_and_mean(Tuned() + measurement_only(TableNoise()), TableMean(), "tuned"); model.set_param_value("scale", 2.); W[0] = 0.5; W[1] = 0.25;
  Mat A = 2. * table(f, f); for (int i = 0; i < 2; i++) A(i, i) = A(i, i) + W[i]; assume_pd(A, 0.5); RegressionDataset<Pt> ds(f, y); double r = 0, e2 = 0;
  for (int i = 0; i < 2; i++) { int o = 1 - i; double mu = M[i] + A(i, o) / A(o, o) * (y[o] - M[o]), va = A(i, i) - A(i, o) * A(i, o) / A(o, o); r += 0.5 * (std::log(va) + (y[i] - mu) * (y[i] - mu) / va + L2PI); e2 += std::sqrt((y[i] - mu) * (y[i] - mu)) / 2; }
  double prior = -std::log(4. - 0.25);
  symx::check_eq(LeaveOneOutLikelihood<JointDistribution>()(ds, model), r - prior, "leave one out, joint");
  symx::check_eq(LeaveOneOutLikelihood<MarginalDistribution>()(ds, model), r - prior, "leave one out, marginal");
  GroupFunction<Pt> g = [](const Pt &p) { return std::to_string(p.id); };
  symx::check_eq(LeaveOneGroupOutLikelihood<Pt>(g)(ds, model), r - prior, "leave one group out");
  symx::check_eq(LeaveOneOutRMSE()(ds, model), e2, "leave one out error");
}
HARNESS(units) { // tiny and huge variances
  double s = unit_of(symx::choose("unit", 0, 2)); int n = symx::choose("n", 1, 3); Vec d = vec("d", n); Mat B = Mat::Identity(n, n); for (int i = 0; i < n; i++) B(i, i) = n == 2 ? rl(nm("v", i), 1, 4) : 1.5 + i; if (n > 1) B(0, 1) = B(1, 0) = 0.5; bool mixed = n > 1 && symx::choose("mixed", 0, 1); Vec u = Vec::Constant(n, s); if (mixed) u[n - 1] = 1; Mat C(n, n); Vec ds(n); for (int i = 0; i < n; i++) { ds[i] = d[i] * u[i]; for (int j = 0; j < n; j++) C(i, j) = B(i, j) * u[i] * u[j]; }
  double r = ref_nll(ds, C); symx::check_eq(negative_log_likelihood(ds, C), r, "dense in other units"); symx::check_eq(negative_log_likelihood(ds, C.ldlt()), r, "factorisation in other units"); symx::check_eq(log_determinant_of_symmetric(C.ldlt()), std::log(det(C)), "log determinant in other units"); Vec vv = C.diagonal(); double sum = 0; for (int i = 0; i < n; i++) sum += negative_log_likelihood(ds[i], vv[i]); symx::check_eq(negative_log_likelihood(ds, Eigen::DiagonalMatrix<double, Eigen::Dynamic>(vv)), sum, "diagonal in other units");
}
HARNESS(large) { // more dimensions
  int n = 14; big_tables(n); auto f = pts(0, n); Vec y = big_vec("y", n, 4), s = big_noise(n); Mat A = table(f, f); for (int i = 0; i < n; i++) A(i, i) += W[i]; Mat As = A; for (int i = 0; i < n; i++) As(i, i) += s[i]; Vec d = y - means(f); symx::check_eq(negative_log_likelihood(d, A), ref_nll(d, A), "dense of many"); symx::check_eq(negative_log_likelihood(d, A.ldlt()), ref_nll(d, A), "factorisation of many"); symx::check_eq(differential_entropy(A), 0.5 * (n * (1 + L2PI) + std::log(det(A))), "entropy of many");
  auto model = table_gp(); RegressionDataset<Pt> ds(f, MarginalDistribution(y, s)); symx::check_eq(model.log_likelihood(ds), -ref_nll(d, As), "process likelihood of many"); symx::check_eq(NegativeLogLikelihood<JointDistribution>()(JointDistribution(y, A), MarginalDistribution(means(f), s)), ref_nll(d, As), "joint metric of many"); double r = 0; for (int i = 0; i < n; i++) { double w = A(i, i) + s[i]; r += 0.5 * (std::log(w) + d[i] * d[i] / w + L2PI); } symx::check_eq(NegativeLogLikelihood<MarginalDistribution>()(MarginalDistribution(y, A.diagonal()), MarginalDistribution(means(f), s)), r, "marginal metric of many"); symx::check_eq(negative_log_likelihood(d, Eigen::DiagonalMatrix<double, Eigen::Dynamic>(As.diagonal())), r, "diagonal of many");
}
