// @bounds: 2 observations with an arbitrary symbolic kernel; 3 and 4 observations with a fixed kernel and symbolic means, targets (and some variances); every grouping of 3 observations, three groupings of 4; target variances symbolic; 14 observations in interleaved groups with a fixed kernel; three units of measurement; groups of 4 or 5 observations named in several orders
// @assume: training covariance positive definite with leading minors >= 0.05; measurement noise independent between observations
#include <albatross/GP>
#include <albatross/CovarianceFunctions>
#include <albatross/Evaluation>
#include "common.hpp"
using namespace albatross; using namespace hx;
// what fitting on the others and predicting the held out observations gives: measurement noise and the observations' own variance included
static Gauss held_out(const std::vector<size_t> &idx, int n, const Mat &A, const Vec &y, const Vec &m) {
  std::vector<int> o; for (int i = 0; i < n; i++) if (std::find(idx.begin(), idx.end(), (size_t)i) == idx.end()) o.push_back(i);
  int p = o.size(), q = idx.size(); Mat At(p, p), Kts(p, q), Kss(q, q); Vec yt(p), mt(p), ms(q);
  for (int i = 0; i < p; i++) { yt[i] = y[o[i]]; mt[i] = m[o[i]]; for (int j = 0; j < p; j++) At(i, j) = A(o[i], o[j]); for (int j = 0; j < q; j++) Kts(i, j) = A(o[i], idx[j]); }
  for (int i = 0; i < q; i++) { ms[i] = m[idx[i]]; for (int j = 0; j < q; j++) Kss(i, j) = A(idx[i], idx[j]); }
  return condition(At, yt, mt, Kts, Kss, ms);
}
template <class P> static void judge(int n, const Vec &y, const Vec &s, bool refit, const GroupIndexer<long> &ix, const P &predict) {
  auto f = pts(0, n); Mat A = table(f, f); for (int i = 0; i < n; i++) A(i, i) = A(i, i) + W[i] + s[i]; assume_pd(A);
  Vec m = means(f); RegressionDataset<Pt> ds(f, MarginalDistribution(y, s)); auto model = table_gp();
  auto cv = predict(model, ds);
  auto me = cv.means(); auto ma = cv.marginals(); auto jo = cv.joints(); Vec mean = cv.mean(); MarginalDistribution marg = cv.marginal();
  symx::check(me.size() == ix.size() && ma.size() == ix.size() && jo.size() == ix.size(), "one prediction per group");
  JointDistribution prior = model.prior(f); MarginalDistribution truth(y, s);
  auto cme = leave_one_group_out_conditional_means(prior, truth, ix); auto cma = leave_one_group_out_conditional_marginals(prior, truth, ix); auto cjo = leave_one_group_out_conditional_joints(prior, truth, ix);
  for (const auto &kv : ix) {
    Gauss r = held_out(kv.second, n, A, y, m); int q = kv.second.size();
    check_vec(me.at(kv.first), r.mean, "group mean"); check_vec(ma.at(kv.first).mean, r.mean, "group marginal mean"); check_vec(ma.at(kv.first).covariance.diagonal(), r.cov.diagonal(), "group marginal variance");
    check_vec(jo.at(kv.first).mean, r.mean, "group joint mean"); symx::check_mat(jo.at(kv.first).covariance, r.cov, "group joint covariance");
    check_vec(cme.at(kv.first), r.mean, "conditional mean"); check_vec(cma.at(kv.first).mean, r.mean, "conditional marginal mean"); check_vec(cma.at(kv.first).covariance.diagonal(), r.cov.diagonal(), "conditional marginal variance");
    check_vec(cjo.at(kv.first).mean, r.mean, "conditional joint mean"); symx::check_mat(cjo.at(kv.first).covariance, r.cov, "conditional joint covariance");
    for (int i = 0; i < q; i++) { symx::check_eq(mean[kv.second[i]], r.mean[i], "mean in original order"); symx::check_eq(marg.mean[kv.second[i]], r.mean[i], "marginal mean in original order"); symx::check_eq(marg.covariance.diagonal()[kv.second[i]], r.cov(i, i), "marginal variance in original order"); }
    if (refit && q < n) {
      auto fold = create_fold(kv.second, ds); auto p = model.fit(fold.train_dataset).predict_with_measurement_noise(fold.test_dataset.features).joint();
      check_vec(p.mean, jo.at(kv.first).mean, "refit mean"); Mat pc = p.covariance; for (int i = 0; i < q; i++) pc(i, i) = pc(i, i) + s[kv.second[i]]; symx::check_mat(pc, jo.at(kv.first).covariance, "refit covariance");
    }
  }
}
template <class G> static void all_forms(int n, const Vec &y, const Vec &s, const G &key, bool refit) {
  auto grouper = [&](const Pt &p) { return (long)key[p.id]; }; auto ix = RegressionDataset<Pt>(pts(0, n), MarginalDistribution(y, s)).group_by(grouper).indexers();
  judge(n, y, s, refit, ix, [&](const auto &model, const auto &ds) { return model.cross_validate().predict(ds, grouper); });
}
HARNESS(leave_one_out_symbolic) {
  zero_tables(); sym_kernel(2); for (int i = 0; i < 2; i++) { M[i] = rl(nm("m", i), -3, 3); W[i] = rl(nm("w", i), 0, 1); }
  std::vector<long> key = {0, 1}; all_forms(2, vec("y", 2), vec("s", 2, 0, 2), key, true);
}
HARNESS(leave_one_out_conditional_symbolic) {
  zero_tables(); sym_kernel(2); Vec y = vec("y", 2), m = vec("m", 2), s = vec("s", 2, 0, 2); auto f = pts(0, 2); Mat P = table(f, f), A = P; for (int i = 0; i < 2; i++) A(i, i) = A(i, i) + s[i]; assume_pd(A);
  MarginalDistribution r = leave_one_out_conditional(JointDistribution(m, P), MarginalDistribution(y, s)); Vec v = leave_one_out_conditional_variance(A);
  for (int i = 0; i < 2; i++) { Gauss g = held_out({(size_t)i}, 2, A, y, m); symx::check_eq(r.mean[i], g.mean[0], "conditional mean"); symx::check_eq(r.covariance.diagonal()[i], g.cov(0, 0), "conditional variance"); symx::check_eq(v[i], g.cov(0, 0), "variance helper"); }
}
HARNESS(leave_one_out_conditional_3) {
  symx::exact(); zero_tables(); num_kernel(3); Vec y = vec("y", 3), m = vec("m", 3), s = vec("s", 3, 0, 2); auto f = pts(0, 3); Mat P = table(f, f), A = P; for (int i = 0; i < 3; i++) A(i, i) = A(i, i) + s[i];
  MarginalDistribution r = leave_one_out_conditional(JointDistribution(m, P), MarginalDistribution(y, s));
  for (int i = 0; i < 3; i++) { Gauss g = held_out({(size_t)i}, 3, A, y, m); symx::check_eq(r.mean[i], g.mean[0], "conditional mean"); symx::check_eq(r.covariance.diagonal()[i], g.cov(0, 0), "conditional variance"); }
}
HARNESS(every_grouping_of_3) {
  symx::exact(); zero_tables(); num_kernel(3); for (int i = 0; i < 3; i++) { M[i] = rl(nm("m", i), -3, 3); W[i] = 0.125 * (i + 1); }
  Vec s(3); s << 0.25, 0.5, 0.375; Vec y = vec("y", 3);
  std::vector<long> key(3); for (int i = 0; i < 3; i++) key[i] = symx::choose(nm("key", i).c_str(), 0, 2);
  if (key[0] == key[1] && key[1] == key[2]) { symx::reach("single group"); return; }
  all_forms(3, y, s, key, true);
}
HARNESS(groups_of_4_variances) {
  symx::exact(); zero_tables(); num_kernel(4); for (int i = 0; i < 4; i++) { M[i] = rl(nm("m", i), -3, 3); W[i] = 0.125 * (i + 1); }
  Vec s(4); s << 0.25, rl("s1", 0, 2), 0.375, 0.5; static const long k[3][4] = {{1, 0, 1, 0}, {2, 2, 0, 1}, {0, 5, 5, 5}}; const long *p = k[symx::choose("layout", 0, 2)];
  all_forms(4, vec("y", 4), s, std::vector<long>(p, p + 4), false);
}
HARNESS(units) { // held out predictions do not depend on the unit the targets are measured in
  int n = 3; zero_tables(); num_kernel(3); for (int i = 0; i < 3; i++) { M[i] = rl(nm("m", i), -3, 3); W[i] = 0.125 * (i + 1); } Vec y = vec("y", n), v(n); v << 0.25, 0.5, 0; int split = symx::choose("split", 0, 1); auto grouper = [&](const Pt &p) { return (long)(split ? p.id : p.id % 2); };
  auto run = [&](double s) { Vec ys = y * s, vs = v * (s * s); RegressionDataset<Pt> ds(pts(0, n), MarginalDistribution(ys, vs)); return table_gp().cross_validate().predict(ds, grouper).joints(); };
  auto a = run(1); double s = unit_of(symx::choose("unit", 0, 2)); rescale_tables(s); auto b = run(s); for (auto &kv : a) { check_vec(Vec(b.at(kv.first).mean / s), kv.second.mean, "mean in other units"); symx::check_mat(Mat(b.at(kv.first).covariance / (s * s)), kv.second.covariance, "covariance in other units"); }
}
HARNESS(many_points) { // fixed kernel, more points
  symx::exact(); zero_tables(); num_kernel(10); for (int i = 0; i < 10; i++) { M[i] = 0.25 * i - 1; W[i] = 0.125 * (i % 3 + 1); } int n = symx::choose("n", 7, 8); Vec s(n); for (int i = 0; i < n; i++) s[i] = 0.25 * (i % 4) + 0.125; static const long k[3][8] = {{0, 1, 2, 3, 4, 5, 6, 7}, {2, 0, 2, 1, 0, 1, 2, 0}, {1, 0, 0, 0, 0, 0, 7, 0}}; const long *p = k[symx::choose("layout", 0, 2)]; all_forms(n, vec("y", n), s, std::vector<long>(p, p + n), false);
}
HARNESS(large) { // more observations, unevenly sized and interleaved groups
  int n = 14; big_tables(n); int w = symx::choose("groups", 0, 2); std::vector<long> key; for (int i = 0; i < n; i++) key.push_back(w == 0 ? i : w == 1 ? (i * 5) % 3 : i == 2 ? 9 : (i * 7) % 4); all_forms(n, big_vec("y", n, 4), big_noise(n), key, true);
}
HARNESS(any_order) { // the indices of a group may be given in any order
  zero_tables(); int n = symx::choose("n", 4, 5); num_kernel(5); for (int i = 0; i < 5; i++) { M[i] = 0.25 * i - 1; W[i] = 0.125 * (i + 1); } std::vector<size_t> left, order; for (int i = 0; i < n; i++) left.push_back(size_t(i)); if (n == 4) { for (int i = 0; i < n; i++) { int k = symx::choose(nm("next", i).c_str(), 0, n - 1 - i); order.push_back(left[size_t(k)]); left.erase(left.begin() + k); } } else { int a = symx::choose("step", 1, 4); for (int i = 0; i < n; i++) order.push_back(size_t((i * a + 3) % n)); }
  GroupIndexer<long> ix; ix[7] = GroupIndices(order.begin(), order.begin() + 2); ix[2] = GroupIndices(order.begin() + 2, order.end()); judge(n, vec("y", n), big_noise(n), true, ix, [&](const auto &model, const auto &ds) { return model.cross_validate().predict(ds, ix); });
}
