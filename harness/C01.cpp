// @bounds: 2 training + 2 test points with an arbitrary symbolic kernel, mean, targets and noise; 4 training + 3 test points with a fixed kernel and arbitrary mean, targets; 10, 20 and 33 observations with a fixed kernel and some symbolic targets
// @assume: training covariance (kernel + measurement noise + target variance) positive definite with leading minors >= 0.05
#include <albatross/GP>
#include <albatross/CovarianceFunctions>
#include "common.hpp"
using namespace albatross; using namespace hx;

static void compare(int n, int t, const Vec &y, const Vec &noise) {
  auto tr = pts(0, n), te = pts(n, t);
  Mat A = table(tr, tr); for (int i = 0; i < n; i++) A(i, i) = A(i, i) + W[i] + noise[i];
  assume_pd(A);
  MarginalDistribution targets(y, noise);
  RegressionDataset<Pt> data(tr, targets);
  auto model = table_gp();
  auto fit = model.fit(data);
  Gauss ref = condition(A, y, means(tr), table(tr, te), table(te, te), means(te));
  const auto pred = fit.predict(te);
  check_vec(pred.mean(), ref.mean, "mean");
  const MarginalDistribution mg = pred.marginal();
  check_vec(mg.mean, ref.mean, "marginal mean");
  check_vec(mg.covariance.diagonal(), ref.cov.diagonal(), "marginal variance");
  const JointDistribution jt = pred.joint();
  check_vec(jt.mean, ref.mean, "joint mean");
  symx::check_mat(jt.covariance, ref.cov, "joint covariance");
  // measurement noise only enters when it is asked for
  Mat Kn = table(te, te); for (int i = 0; i < t; i++) Kn(i, i) = Kn(i, i) + W[n + i];
  Gauss refn = condition(A, y, means(tr), table(tr, te), Kn, means(te));
  const auto noisy = fit.predict_with_measurement_noise(te);
  check_vec(noisy.mean(), refn.mean, "noisy mean");
  check_vec(noisy.marginal().covariance.diagonal(), refn.cov.diagonal(), "noisy marginal variance");
  symx::check_mat(noisy.joint().covariance, refn.cov, "noisy joint covariance");
  check_vec(noisy.joint().mean, refn.mean, "noisy joint mean");
}
HARNESS(symbolic_kernel) {
  zero_tables(); sym_kernel(4); for (int i = 0; i < 4; i++) { M[i] = rl(nm("m", i), -3, 3); }
  Vec y = vec("y", 2), noise = vec("s", 2, 0, 2); W[0] = rl("w0", 0, 1); W[1] = rl("w1", 0, 1); W[2] = rl("w2", 0, 1); W[3] = 0.5;
  compare(2, 2, y, noise);
}
HARNESS(symbolic_kernel_single) {
  zero_tables(); sym_kernel(3); for (int i = 0; i < 3; i++) { M[i] = rl(nm("m", i), -3, 3); W[i] = rl(nm("w", i), 0, 1); }
  compare(1, 2, vec("y", 1), vec("s", 1, 0, 2));
}
HARNESS(fixed_kernel) {
  zero_tables(); num_kernel(7); for (int i = 0; i < 7; i++) { M[i] = rl(nm("m", i), -3, 3); W[i] = 0.1 * (i + 1); }
  Vec noise(4); noise << 0.2, 0.05, 0.4, 0.1;
  compare(4, 3, vec("y", 4), noise);
}
HARNESS(no_noise_dataset) { // targets without variance behave as zero variance, and rvalue predictions agree with lvalue ones
  zero_tables(); num_kernel(5); for (int i = 0; i < 5; i++) { M[i] = rl(nm("m", i), -3, 3); W[i] = 0.2; }
  auto tr = pts(0, 3), te = pts(3, 2); Vec y = vec("y", 3);
  auto model = table_gp(); auto fm = model.fit(tr, MarginalDistribution(y));
  Mat A = table(tr, tr); for (int i = 0; i < 3; i++) A(i, i) += W[i];
  Gauss ref = condition(A, y, means(tr), table(tr, te), table(te, te), means(te));
  check_vec(fm.predict(te).mean(), ref.mean, "mean");
  JointDistribution tmp = model.fit(RegressionDataset<Pt>(tr, y)).predict(te).joint();
  check_vec(tmp.mean, ref.mean, "rvalue joint mean"); symx::check_mat(tmp.covariance, ref.cov, "rvalue joint covariance");
  check_vec(fm.predict(te).get<Vec>(), ref.mean, "get mean");
  symx::check_mat(fm.predict(te).get<JointDistribution>().covariance, ref.cov, "get joint");
  check_vec(fm.predict(te).get<MarginalDistribution>().covariance.diagonal(), ref.cov.diagonal(), "get marginal");
  std::vector<Pt> none; symx::check(fm.predict(none).mean().size() == 0, "empty mean"); symx::check(fm.predict(none).joint().mean.size() == 0, "empty joint"); symx::check(fm.predict(none).marginal().mean.size() == 0, "empty marginal");
}
HARNESS(prior) {
  zero_tables(); sym_kernel(3); for (int i = 0; i < 3; i++) { M[i] = rl(nm("m", i), -3, 3); W[i] = rl(nm("w", i), 0, 1); }
  auto p = pts(0, 3); auto model = table_gp(); JointDistribution d = model.prior(p);
  Mat A = table(p, p); symx::check_mat(model.compute_covariance(p), A, "latent prior covariance");
  for (int i = 0; i < 3; i++) A(i, i) += W[i];
  check_vec(d.mean, means(p), "prior mean"); symx::check_mat(d.covariance, A, "prior covariance");
}
HARNESS(units) { // predictions do not depend on the unit the targets are measured in, however small or large
  int n = 3, t = 2; zero_tables(); num_kernel(5); for (int i = 0; i < 5; i++) { M[i] = rl(nm("m", i), -3, 3); W[i] = 0.125 * (i + 1); } Vec y = vec("y", n), v(n); v << 0.25, 0.5, 0; auto run = [&](double s) { Vec ys = y * s, vs = v * (s * s); return table_gp().fit(RegressionDataset<Pt>(pts(0, n), MarginalDistribution(ys, vs))).predict_with_measurement_noise(pts(n, t)).joint(); };
  auto a = run(1); double s = unit_of(symx::choose("unit", 0, 2)); rescale_tables(s); auto b = run(s); check_vec(Vec(b.mean / s), a.mean, "mean in other units"); symx::check_mat(Mat(b.covariance / (s * s)), a.covariance, "covariance in other units");
}
HARNESS(many_points) { // fixed kernel, more points; the same fit asked for other features in between
  zero_tables(); num_kernel(12); int n = symx::choose("n", 7, 9); for (int i = 0; i < 12; i++) { M[i] = 0.25 * i - 1; W[i] = 0.125 * (i % 3) + 0.0625; } Vec y = vec("y", n), v(n); for (int i = 0; i < n; i++) v[i] = 0.25 * (i % 4) + 0.125; auto tr = pts(0, n); Mat A = table(tr, tr); for (int i = 0; i < n; i++) A(i, i) += W[i] + v[i]; auto model = table_gp(); auto fit = model.fit(RegressionDataset<Pt>(tr, MarginalDistribution(y, v)));
  for (int k = 0; k < 4; k++) { std::vector<Pt> te = k == 1 ? pts(0, 12 - n) : k == 3 ? pts(3, 2) : pts(n, 12 - n); Gauss ref = condition(A, y, means(tr), table(tr, te), table(te, te), means(te)); auto p = fit.predict(te); auto j = p.joint(); check_vec(j.mean, ref.mean, "mean of many"); symx::check_mat(j.covariance, ref.cov, "covariance of many"); auto m = fit.predict(te).marginal(); check_vec(m.mean, ref.mean, "marginal mean of many"); check_vec(Vec(m.covariance.diagonal()), Vec(ref.cov.diagonal()), "variance of many"); check_vec(p.mean(), ref.mean, "mean only of many"); }
}
HARNESS(large) { // 20 to 40 points, every target of some of them
  int n = symx::choose("n", 0, 1) ? 33 : 20, t = 3; big_tables(n + t); Vec y = big_vec("y", n, 4), v = big_noise(n); auto tr = pts(0, n), te = pts(n, t); Mat A = table(tr, tr); for (int i = 0; i < n; i++) A(i, i) += W[i] + v[i]; auto fit = table_gp().fit(RegressionDataset<Pt>(tr, MarginalDistribution(y, v))); Gauss ref = condition(A, y, means(tr), table(tr, te), table(te, te), means(te)); auto j = fit.predict(te).joint(); check_vec(j.mean, ref.mean, "mean of many"); symx::check_mat(j.covariance, ref.cov, "covariance of many"); auto m = fit.predict(te).marginal(); check_vec(m.mean, ref.mean, "marginal mean of many"); check_vec(Vec(m.covariance.diagonal()), Vec(ref.cov.diagonal()), "variance of many"); check_vec(fit.predict(te).mean(), ref.mean, "mean only of many");
}
