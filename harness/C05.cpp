// @bounds: groups of 4 observations with their indices in every order; 1-4 observations, every assignment of group keys (up to 3 distinct keys), leave-one-out and k-fold groupers for every k up to 4; targets, variances and model coefficients symbolic; the model under cross validation has no shortcut and reveals its training set; 12 to 14 observations with fixed groups
#include <albatross/GP>
#include <albatross/Evaluation>
#include "common.hpp"
#include "probe.hpp"
using namespace albatross; using namespace hx;
static std::vector<int> complement(const std::vector<size_t> &t, int n) { std::vector<int> r; for (int i = 0; i < n; i++) { bool in = false; for (size_t x : t) in = in || (int)x == i; if (!in) r.push_back(i); } return r; }
template <class Ds> static void check_fold(const RegressionFold<Pt> &f, const std::vector<size_t> &t, const Ds &ds, int n, const Vec &y, const Vec &s) {
  auto o = complement(t, n); symx::check(f.test_indices == t, "fold remembers its indices");
  symx::check(f.test_dataset.size() == t.size() && f.test_dataset.targets.size() == t.size(), "test size"); symx::check(f.train_dataset.size() == o.size() && f.train_dataset.targets.size() == o.size(), "train size");
  for (size_t i = 0; i < t.size(); i++) { symx::check(f.test_dataset.features[i] == ds.features[t[i]], "test feature"); symx::check_eq(f.test_dataset.targets.mean[i], y[t[i]], "test value", 0); symx::check_eq(f.test_dataset.targets.covariance.diagonal()[i], s[t[i]], "test variance", 0); }
  for (size_t i = 0; i < o.size(); i++) { symx::check(f.train_dataset.features[i] == ds.features[o[i]], "train feature"); symx::check_eq(f.train_dataset.targets.mean[i], y[o[i]], "train value", 0); symx::check_eq(f.train_dataset.targets.covariance.diagonal()[i], s[o[i]], "train variance", 0); }
}
template <class Ix, class Grp> static void cv(int n, const Grp &grouper, const std::vector<std::vector<size_t>> &expected, const Vec &y, const Vec &s, const RegressionDataset<Pt> &ds, Ix *) {
  auto folds = folds_from_grouper(ds, grouper); auto ix = ds.group_by(grouper).indexers(); auto folds2 = folds_from_group_indexer(ds, ix);
  symx::check(folds.size() == expected.size() && folds2.size() == expected.size(), "one fold per group");
  symx::check(dataset_size_from_indexer(ix) == (size_t)n, "dataset size"); symx::check(unique_indices(ix).size() == (size_t)n, "unique indices");
  size_t g = 0; for (const auto &kv : folds) { check_fold(kv.second, expected[g], ds, n, y, s); check_fold(folds2.at(kv.first), expected[g], ds, n, y, s); symx::check(ix.at(kv.first) == expected[g], "indexer"); g++; }
  Probe model; auto pred = model.cross_validate().predict(ds, grouper);
  auto me = pred.means(); auto ma = pred.marginals(); auto jo = pred.joints(); Vec mean = pred.mean(); MarginalDistribution mg = pred.marginal(); auto fp = model.cross_validate().predictions(folds);
  auto gm = pred.template get<Grouped<Ix, JointDistribution>>(); auto gv = pred.template get<Vec>(); auto gg = pred.template get<MarginalDistribution>(); auto mm = pred.template get<std::map<Ix, Vec>>(); auto mj = pred.template get<std::map<Ix, JointDistribution>>(); auto mmg = pred.template get<std::map<Ix, MarginalDistribution>>();
  symx::check(mean.size() == n && (int)mg.size() == n, "assembled size");
  g = 0; for (const auto &kv : me) {
    const auto &t = expected[g]; auto o = complement(t, n); const auto &m = kv.second; symx::check((size_t)m.size() == t.size(), "group prediction size");
    for (size_t i = 0; i < t.size(); i++) {
      double rm = probe_mean(o, t[i], y), rv = probe_cov(o, t[i], t[i], s);
      symx::check_eq(m[i], rm, "group mean"); symx::check_eq(ma.at(kv.first).mean[i], rm, "group marginal mean"); symx::check_eq(ma.at(kv.first).covariance.diagonal()[i], rv, "group marginal variance"); symx::check_eq(jo.at(kv.first).mean[i], rm, "group joint mean");
      symx::check_eq(mm.at(kv.first)[i], rm, "map of means"); symx::check_eq(mmg.at(kv.first).covariance.diagonal()[i], rv, "map of marginals");
      for (size_t j = 0; j < t.size(); j++) { double rc = probe_cov(o, t[i], t[j], s); symx::check_eq(jo.at(kv.first).covariance(i, j), rc, "group joint covariance"); symx::check_eq(gm.at(kv.first).covariance(i, j), rc, "grouped joints"); symx::check_eq(mj.at(kv.first).covariance(i, j), rc, "map of joints"); symx::check_eq(fp.at(kv.first).joint().covariance(i, j), rc, "prediction per fold"); }
      symx::check_eq(mean[t[i]], rm, "mean at the original position"); symx::check_eq(gv[t[i]], rm, "requested mean at the original position"); symx::check_eq(mg.mean[t[i]], rm, "marginal mean at the original position"); symx::check_eq(mg.covariance.diagonal()[t[i]], rv, "variance at the original position"); symx::check_eq(gg.covariance.diagonal()[t[i]], rv, "requested variance at the original position");
    }
    g++;
  }
  if (n > 8) return;
  Vec sc = model.cross_validate().scores(RootMeanSquareError(), ds, grouper), sf = model.cross_validate().scores(RootMeanSquareError(), folds); symx::check((size_t)sc.size() == expected.size() && sf.size() == sc.size(), "one score per fold");
  for (size_t k = 0; k < expected.size(); k++) { const auto &t = expected[k]; auto o = complement(t, n); double e = 0; for (size_t i : t) { double d = probe_mean(o, i, y) - y[i]; e += d * d / t.size(); } symx::check_eq(sc[k] * sc[k], e, "score"); symx::check_eq(sf[k] * sf[k], e, "score of folds"); symx::check(sc[k] >= 0, "score sign"); }
}
static std::vector<std::vector<size_t>> layout(const std::vector<long> &key) { std::vector<std::vector<size_t>> e; for (long v = -3; v < 9; v++) { std::vector<size_t> t; for (size_t i = 0; i < key.size(); i++) if (key[i] == v) t.push_back(i); if (!t.empty()) e.push_back(t); } return e; }
static void keyed(int n, int hi) {
  probe_tables(n); Vec y = vec("y", n), s = vec("s", n, 0, 2); std::vector<long> key(n); for (int i = 0; i < n; i++) key[i] = symx::choose(nm("key", i).c_str(), 0, hi);
  std::vector<Pt> f = pts(0, n); RegressionDataset<Pt> ds(f, MarginalDistribution(y, s));
  cv<long>(n, [&](const Pt &p) { return key[p.id] - 1; }, layout(key), y, s, ds, (long *)nullptr);
}
HARNESS(groups_of_3) { keyed(3, 2); }
HARNESS(groups_of_2) { keyed(2, 1); }
HARNESS(groups_of_1) { keyed(1, 0); }
#ifdef SYMX_THOROUGH
HARNESS(groups_of_4) { keyed(4, 2); }
#else
HARNESS(groups_of_4) { keyed(4, 1); }
#endif
HARNESS(leave_one_out) { int n = 3; probe_tables(n); Vec y = vec("y", n), s = vec("s", n, 0, 2); RegressionDataset<Pt> ds(pts(0, n), MarginalDistribution(y, s)); cv<size_t>(n, LeaveOneOutGrouper(), layout({0, 1, 2}), y, s, ds, (size_t *)nullptr); }
HARNESS(k_fold) {
  int n = symx::choose("n", 2, 4), k = symx::choose("k", 1, 4); probe_tables(n); Vec y = vec("y", n), s = vec("s", n, 0, 2); RegressionDataset<Pt> ds(pts(0, n), MarginalDistribution(y, s)); std::vector<long> key; for (int i = 0; i < n; i++) key.push_back(i % k);
  cv<size_t>(n, KFoldGrouper(k), layout(key), y, s, ds, (size_t *)nullptr);
}
HARNESS(large) { // more observations, unevenly sized and interleaved groups
  int which = symx::choose("grouper", 0, 2), n = which == 0 ? 14 : which == 1 ? 13 : 12; probe_numbers(n); Vec y = big_vec("y", n, 5), s = big_noise(n); RegressionDataset<Pt> ds(pts(0, n), MarginalDistribution(y, s)); std::vector<long> key; std::vector<std::vector<size_t>> one;
  if (which == 0) { for (int i = 0; i < n; i++) key.push_back(i == 3 ? 3 : (i * 5) % 3); cv<long>(n, [&](const Pt &p) { return key[p.id] - 1; }, layout(key), y, s, ds, (long *)nullptr); }
  else if (which == 1) { for (int i = 0; i < n; i++) key.push_back(i % 5); cv<size_t>(n, KFoldGrouper(5), layout(key), y, s, ds, (size_t *)nullptr); }
  else { for (int i = 0; i < n; i++) one.push_back({(size_t)i}); cv<size_t>(n, LeaveOneOutGrouper(), one, y, s, ds, (size_t *)nullptr); }
}
HARNESS(any_order) { // indices of a group may be given in any order
  const int n = 4; probe_tables(n); Vec y = vec("y", n), s = vec("s", n, 0, 2); RegressionDataset<Pt> ds(pts(0, n), MarginalDistribution(y, s)); std::vector<size_t> left = {0, 1, 2, 3}, order; for (int i = 0; i < n; i++) { int k = symx::choose(nm("next", i).c_str(), 0, n - 1 - i); order.push_back(left[size_t(k)]); left.erase(left.begin() + k); } int cut = symx::choose("cut", 2, 3); GroupIndexer<int> ix; ix[7] = GroupIndices(order.begin(), order.begin() + cut); ix[2] = GroupIndices(order.begin() + cut, order.end());
  auto folds = folds_from_group_indexer(ds, ix); symx::check(folds.size() == 2, "a fold for each group in any order"); for (auto &kv : folds) check_fold(kv.second, ix.at(kv.first), ds, n, y, s); auto back = group_indexer_from_folds(folds.get_map()); symx::check(back.at(7) == ix.at(7) && back.at(2) == ix.at(2), "the folds remember the groups");
  Probe model; auto pred = model.cross_validate().predict(ds, ix); auto me = pred.means(); Vec mean = pred.mean(); MarginalDistribution mg = pred.marginal(); auto jo = pred.joints(); auto fp = model.cross_validate().predictions(folds);
  for (auto &kv : ix) { const auto &t = kv.second; auto o = complement(t, n); for (size_t i = 0; i < t.size(); i++) { double rm = probe_mean(o, t[i], y); symx::check_eq(me.at(kv.first)[i], rm, "mean in the order of the group"); symx::check_eq(fp.at(kv.first).mean()[i], rm, "mean of the fold in the order of the group"); symx::check_eq(mean[t[i]], rm, "mean at its position, any order"); symx::check_eq(mg.mean[t[i]], rm, "marginal mean at its position, any order"); symx::check_eq(mg.covariance.diagonal()[t[i]], probe_cov(o, t[i], t[i], s), "variance at its position, any order"); for (size_t j = 0; j < t.size(); j++) symx::check_eq(jo.at(kv.first).covariance(i, j), probe_cov(o, t[i], t[j], s), "covariance in the order of the group"); } }
  Vec sc = model.cross_validate().scores(RootMeanSquareError(), ds, ix), sf = model.cross_validate().scores(RootMeanSquareError(), folds); int k = 0; for (auto &kv : ix) { const auto &t = kv.second; auto o = complement(t, n); double e = 0; for (size_t i : t) { double d = probe_mean(o, i, y) - y[i]; e += d * d / t.size(); } symx::check_eq(sc[k] * sc[k], e, "score in any order"); symx::check_eq(sf[k] * sf[k], e, "score of folds in any order"); k++; }
}
