// @bounds: 1+1 and 2+1, 1+2 observations with arbitrary symbolic kernel, mean, targets and variances, 1-2 test points; 2+1+1 and 1+2+1 observations with a fixed kernel and arbitrary means, targets and variances; 20 observations updated with 11, and 10 in up to three parts, with a fixed kernel; the same in three units of measurement
// @assume: training covariance positive definite with leading minors >= 0.05; measurement noise independent between observations, features distinct
#include <albatross/GP>
#include <albatross/CovarianceFunctions>
#include "common.hpp"
using namespace albatross; using namespace hx;

static RegressionDataset<Pt> part(const std::vector<Pt> &f, const Vec &y, const Vec &s, int from, int n) {
  std::vector<Pt> sf(f.begin() + from, f.begin() + from + n); Vec ym = y.segment(from, n), sm = s.segment(from, n);
  return RegressionDataset<Pt>(sf, MarginalDistribution(ym, sm));
}
template <class F> static void same(const F &fit, const Gauss &ref, const Gauss &refn, const std::vector<Pt> &te) {
  check_vec(fit.predict(te).mean(), ref.mean, "updated mean");
  const MarginalDistribution mg = fit.predict(te).marginal();
  check_vec(mg.mean, ref.mean, "updated marginal mean"); check_vec(mg.covariance.diagonal(), ref.cov.diagonal(), "updated marginal variance");
  const JointDistribution jt = fit.predict(te).joint();
  check_vec(jt.mean, ref.mean, "updated joint mean"); symx::check_mat(jt.covariance, ref.cov, "updated joint covariance");
  symx::check_mat(fit.predict_with_measurement_noise(te).joint().covariance, refn.cov, "updated noisy covariance");
}
static void refs(int N, int t, const Vec &y, const Vec &s, Gauss &ref, Gauss &refn) {
  auto tr = pts(0, N), te = pts(N, t); Mat A = table(tr, tr); for (int i = 0; i < N; i++) A(i, i) = A(i, i) + W[i] + s[i];
  assume_pd(A);
  ref = condition(A, y, means(tr), table(tr, te), table(te, te), means(te));
  Mat Kn = table(te, te); for (int i = 0; i < t; i++) Kn(i, i) = Kn(i, i) + W[N + i];
  refn = ref; refn.cov = ref.cov - table(te, te) + Kn;
}
static void once(int a, int b, int t, const Vec &y, const Vec &s) {
  int N = a + b; auto tr = pts(0, N), te = pts(N, t); Gauss ref, refn; refs(N, t, y, s, ref, refn);
  auto model = table_gp(); const auto fit = model.fit(part(tr, y, s, 0, a)); const auto before = fit.predict(te).joint();
  const auto up = update(fit, part(tr, y, s, a, b));
  same(up, ref, refn, te);
  check_vec(up.get_model().fit(part(tr, y, s, 0, N)).predict(te).mean(), up.predict(te).mean(), "refit by the updated model");
  const auto after = fit.predict(te).joint();
  check_vec(after.mean, before.mean, "original mean unchanged", 0); symx::check_mat(after.covariance, before.covariance, "original covariance unchanged", 0);
}
HARNESS(symbolic_1_1) { zero_tables(); sym_kernel(4); for (int i = 0; i < 4; i++) { M[i] = rl(nm("m", i), -3, 3); W[i] = rl(nm("w", i), 0, 1); } once(1, 1, 2, vec("y", 2), vec("s", 2, 0, 2)); }
HARNESS(mixed_2_1) { symx::exact(); zero_tables(); num_kernel(4); K[2][0] = K[0][2] = rl("k20", -2, 2); K[3][1] = K[1][3] = rl("k31", -2, 2); for (int i = 0; i < 4; i++) { M[i] = rl(nm("m", i), -3, 3); W[i] = 0.125 * (i + 1); } once(2, 1, 1, vec("y", 3), vec("s", 3, 0, 2)); }
HARNESS(fixed_1_2) { zero_tables(); num_kernel(5); for (int i = 0; i < 5; i++) { M[i] = rl(nm("m", i), -3, 3); W[i] = 0.1 * (i + 1); } Vec s(3); s << 0.2, 0.3, 0.1; once(1, 2, 2, vec("y", 3), s); }
HARNESS(fixed_2_2_variances) { symx::exact(); zero_tables(); num_kernel(6); for (int i = 0; i < 6; i++) { M[i] = 0.25 * i; W[i] = 0.125 * (i + 1); } Vec s(4); s << 0.25, 0.375, rl("s2", 0, 2), rl("s3", 0, 2); once(2, 2, 2, vec("y", 4), s); }
HARNESS(repeated) {
  zero_tables(); num_kernel(6); for (int i = 0; i < 6; i++) { M[i] = rl(nm("m", i), -3, 3); W[i] = 0.1 * (i + 1); }
  Vec y = vec("y", 4), s(4); s << 0.2, 0.3, 0.1, 0.4; auto tr = pts(0, 4), te = pts(4, 2); Gauss ref, refn; refs(4, 2, y, s, ref, refn);
  auto model = table_gp(); const auto f0 = model.fit(part(tr, y, s, 0, 1));
  const auto f1 = f0.update(part(tr, y, s, 1, 2)), f1b = f0.update(part(tr, y, s, 1, 2)); const auto f2 = f1.update(part(tr, y, s, 3, 1)); same(f2, ref, refn, te);
  // other order of the batches
  const auto g1 = f0.update(part(tr, y, s, 3, 1)); const auto g2 = g1.update(part(tr, y, s, 1, 2)); same(g2, ref, refn, te);
  // all at once, by features and targets
  auto d = part(tr, y, s, 1, 3); same(f0.update(d.features, d.targets), ref, refn, te);
  check_vec(f1b.predict(te).mean(), f1.predict(te).mean(), "update is repeatable", 0);
}
HARNESS(units) { // updates do not depend on the unit the targets are measured in
  int n = 2, k = 2, t = 1; zero_tables(); num_kernel(5); for (int i = 0; i < 5; i++) { M[i] = rl(nm("m", i), -3, 3); W[i] = 0.125 * (i + 1); } Vec y = vec("y", n + k), v(n + k); v << 0.25, 0.5, 0, 1; auto run = [&](double s) { Vec ys = y * s, vs = v * (s * s); auto fm = table_gp().fit(RegressionDataset<Pt>(pts(0, n), MarginalDistribution(Vec(ys.head(n)), Vec(vs.head(n))))); return update(fm, RegressionDataset<Pt>(pts(n, k), MarginalDistribution(Vec(ys.tail(k)), Vec(vs.tail(k))))).predict(pts(n + k, t)).joint(); };
  auto a = run(1); double s = unit_of(symx::choose("unit", 0, 2)); rescale_tables(s); auto b = run(s); check_vec(Vec(b.mean / s), a.mean, "mean in other units"); symx::check_mat(Mat(b.covariance / (s * s)), a.covariance, "covariance in other units");
}
HARNESS(many_points) { // fixed kernel, more points, several updates
  zero_tables(); num_kernel(12); int n = 10, cut = symx::choose("cut", 0, 3); static const int C[4][3] = {{4, 8, 10}, {2, 9, 10}, {1, 3, 10}, {7, 8, 10}}; for (int i = 0; i < 12; i++) { M[i] = 0.25 * i - 1; W[i] = 0.125 * (i % 3) + 0.0625; } Vec y = vec("y", n), v(n); for (int i = 0; i < n; i++) v[i] = 0.25 * (i % 4) + 0.125; auto part = [&](int a, int b) { return RegressionDataset<Pt>(pts(a, b - a), MarginalDistribution(Vec(y.segment(a, b - a)), Vec(v.segment(a, b - a)))); };
  auto once = table_gp().fit(part(0, n)).predict(pts(10, 2)).joint(); auto f0 = table_gp().fit(part(0, C[cut][0])); auto f1 = update(f0, part(C[cut][0], C[cut][1])); auto f2 = update(f1, part(C[cut][1], n)); auto got = f2.predict(pts(10, 2)).joint(); check_vec(got.mean, once.mean, "mean after updates"); symx::check_mat(got.covariance, once.covariance, "covariance after updates"); auto part1 = table_gp().fit(part(0, C[cut][1])).predict(pts(9, 3)).joint(), p1 = f1.predict(pts(9, 3)).joint(); check_vec(p1.mean, part1.mean, "mean between updates"); symx::check_mat(p1.covariance, part1.covariance, "covariance between updates"); auto m = f2.predict(pts(10, 2)).marginal(); check_vec(m.mean, once.mean, "marginal mean after updates"); check_vec(Vec(m.covariance.diagonal()), Vec(once.covariance.diagonal()), "variance after updates");
}
HARNESS(large) { // 20 points updated with 11 more
  int n = 20, k = 11, N = n + k, t = 3; big_tables(N + t); Vec y = big_vec("y", N, 5), s = big_noise(N); auto tr = pts(0, N), te = pts(N, t); Mat A = table(tr, tr); for (int i = 0; i < N; i++) A(i, i) += W[i] + s[i]; Gauss ref = condition(A, y, means(tr), table(tr, te), table(te, te), means(te)), refn = ref; for (int i = 0; i < t; i++) refn.cov(i, i) += W[N + i];
  auto up = update(table_gp().fit(part(tr, y, s, 0, n)), part(tr, y, s, n, k)); same(up, ref, refn, te);
}
