// @bounds: up to 4 groups, samples of 1 to 3, 2 iterations (3 thorough), every output of the random number generator (up to 4 draws), every value of the inlier and consensus metrics and every verdict of the candidate test; Gaussian process strategies on 4 points with symbolic targets
// @assume: the random number generator's range is 0..11
#include "draws.hpp"
#include <albatross/Ransac>
#include <albatross/CovarianceFunctions>
#include "common.hpp"
using namespace albatross; using namespace hx;
typedef int Bits;
static std::vector<int> KEY = {3, 5, 8, 13};
static int at(int key) { for (int i = 0; i < 4; i++) if (KEY[i] == key) return i; return 4; }
static Bits bits(const std::vector<int> &g) { Bits b = 0; for (int k : g) b |= 1 << at(k); return b; }
static double in_[16][4], cm[16]; static int have_in[16][4], have_cm[16], ok[16], fits[16], nfit;
static double inl(Bits b, int i) { if (!have_in[b][i]) { have_in[b][i] = 1; in_[b][i] = rl(nm("inlier", b, i), -4, 4); } return in_[b][i]; }
static double con(Bits b) { if (!have_cm[b]) { have_cm[b] = 1; cm[b] = rl(nm("consensus", b), -4, 4); } return cm[b]; }
static bool val(Bits b) { if (!ok[b]) ok[b] = 1 + symx::choose(nm("valid", b).c_str(), 0, 1); return ok[b] == 2; }
static void clear() { KEY = {3, 5, 8, 13}; for (int b = 0; b < 16; b++) { have_cm[b] = ok[b] = 0; for (int i = 0; i < 4; i++) have_in[b][i] = 0; } nfit = 0; }
static void audit(const RansacOutput<int> &o, const std::vector<int> &g, double thr, int sample, int need, int iters, int fails, bool use_valid) {
  int bad = 0, good = 0, best = -1; bool last_bad = false;
  for (size_t k = 0; k < o.iterations.size(); k++) {
    auto &it = o.iterations[k]; Bits b = bits(it.candidates); symx::check((int)it.candidates.size() == sample && __builtin_popcount(b) == sample && b < (1 << g.size()), "candidates are distinct groups, as many as asked for"); bool v = !use_valid || val(b); last_bad = !v;
    if (!v) { bad++; symx::check(it.inliers.empty() && it.outliers.empty() && std::isnan(it.consensus_metric_value), "a refused candidate has no consensus"); continue; }
    good++; Bits c = b; for (size_t i = 0; i < g.size(); i++) { bool inside = b >> i & 1, is_in = it.inliers.count(g[i]), is_out = it.outliers.count(g[i]); symx::check(inside + is_in + is_out == 1, "candidates, inliers and outliers partition the groups"); if (inside) continue; double m = inl(b, i); symx::check(is_in == (m <= thr), "inliers are the groups within the threshold"); symx::check_eq(is_in ? it.inliers.at(g[i]) : it.outliers.at(g[i]), m, "metric of each group"); if (is_in) c |= 1 << i; }
    symx::check(it.inliers.size() + it.outliers.size() + sample == g.size(), "no other groups appear"); auto cons = it.consensus(); symx::check(bits(cons) == c && (int)cons.size() == __builtin_popcount(c), "consensus is the candidates and the inliers");
    if ((int)cons.size() >= need) { symx::check_eq(it.consensus_metric_value, con(c), "consensus metric"); if (best < 0 || it.consensus_metric_value < o.iterations[best].consensus_metric_value) best = k; } else symx::check(std::isnan(it.consensus_metric_value), "too small a consensus is not measured");
  }
  int limit = fails < 1 ? 1 : fails; symx::check(good <= iters && bad <= limit, "iteration and failure limits");
  if (bad == limit) { symx::check(o.return_code == RANSAC_RETURN_CODE_EXCEEDED_MAX_FAILED_CANDIDATES && last_bad, "stops when candidates fail too often"); return; }
  symx::check(good == iters, "every iteration is run"); symx::check(o.return_code == (best >= 0 ? RANSAC_RETURN_CODE_SUCCESS : RANSAC_RETURN_CODE_NO_CONSENSUS), "return code tells whether a consensus was found");
  if (best >= 0) { symx::check(o.best == o.iterations[best], "best is the lowest consensus metric"); symx::check((int)o.best.consensus().size() >= need, "best consensus is large enough"); } else symx::check(o.best.consensus().empty(), "no best without consensus");
  symx::reach(best >= 0 ? "success" : "no consensus");
}
static RansacFunctions<Bits, int> functions(bool use_valid) {
  std::function<Bits(const std::vector<int> &)> fit = [](const std::vector<int> &g) { nfit++; return bits(g); }; std::function<double(const int &, const Bits &)> im = [](const int &k, const Bits &b) { return inl(b, at(k)); }; std::function<double(const std::vector<int> &)> c = [](const std::vector<int> &g) { return con(bits(g)); };
  if (!use_valid) return RansacFunctions<Bits, int>(fit, im, c); std::function<bool(const std::vector<int> &)> v = [](const std::vector<int> &g) { return val(bits(g)); }; return RansacFunctions<Bits, int>(fit, im, c, v);
}
static void run(int n, int sample, int need, int iters, int fails, bool use_valid, int draws, std::vector<int> key = {3, 5, 8, 13}) {
  clear(); KEY = key; reset_draws(draws); std::vector<int> g(KEY.begin(), KEY.begin() + n); double thr = rl("threshold", -4, 4); auto o = ransac(functions(use_valid), g, thr, sample, need, iters, fails); audit(o, g, thr, sample, need, iters, fails, use_valid);
}
HARNESS(loop_one) { int n = symx::choose("n", 2, 3); run(n, 1, symx::choose("need", 1, n - 1), 2, 0, false, 2); }
HARNESS(loop_pairs) { int n = symx::choose("n", 3, 4); run(n, 2, symx::choose("need", 2, n - 1), 1, 0, false, 3); }
HARNESS(loop_most) { run(4, 3, 3, 1, 0, false, 4); }
HARNESS(loop_invalid_candidates) { run(3, 1, symx::choose("need", 1, 2), symx::choose("iterations", 1, 2), symx::choose("fails", 0, 2), true, 4); }
HARNESS(loop_unsorted) { run(4, 2, 3, 1, 0, false, 3, symx::choose("order", 0, 1) ? std::vector<int>{13, 8, 5, 3} : std::vector<int>{8, 13, 3, 5}); }
#ifdef SYMX_THOROUGH
HARNESS(loop_unsorted_most) { run(4, 3, 3, 1, 0, false, 4, {13, 8, 5, 3}); }
HARNESS(loop_three) { run(3, 1, symx::choose("need", 1, 2), 3, 0, false, 3); }
HARNESS(loop_pairs_invalid) { run(3, 2, 2, 2, symx::choose("fails", 1, 2), true, 8); }
HARNESS(loop_four) { run(4, 1, symx::choose("need", 1, 3), 2, 0, false, 2); }
#endif
HARNESS(arguments) {
  clear(); reset_draws(4); int n = symx::choose("n", 1, 3), sample = symx::choose("sample", 0, 3), need = symx::choose("need", 0, 3), iters = symx::choose("iterations", 0, 1); std::vector<int> g(KEY.begin(), KEY.begin() + n); bool bad = sample == 0 || sample >= n || need < sample || need >= n || iters == 0; auto o = ransac(functions(false), g, 0., sample, need, iters, 1); symx::check((o.return_code == RANSAC_RETURN_CODE_INVALID_ARGUMENTS) == bad, "unusable arguments are refused"); if (bad) symx::check(o.iterations.empty() && nfit == 0 && !ransac_success(o.return_code), "nothing is run with unusable arguments");
}
HARNESS(undefined_metric) { // a metric that is not a number is never an inlier
  clear(); reset_draws(4); auto f = functions(false); f.inlier_metric = [](const int &k, const Bits &b) { return k == 5 ? NAN : inl(b, at(k)); }; std::vector<int> g(KEY.begin(), KEY.begin() + 3); auto o = ransac(f, g, 1., 1, 2, 1, 0); auto &it = o.iterations.at(0); symx::check(!it.inliers.count(5) && (it.candidates[0] == 5 || it.outliers.count(5)), "undefined metric means outlier");
}
// ---- strategies ----
static JointDistribution seen; static MarginalDistribution seen_truth; static double seen_value;
struct Spy { double operator()(const JointDistribution &p, const MarginalDistribution &t) const { seen = p; seen_truth = t; return seen_value; } };
struct SpyOk { bool operator()(const JointDistribution &p, const MarginalDistribution &t) const { seen = p; seen_truth = t; return seen_value > 0; } };
static double spy_joint(const JointDistribution &p, const MarginalDistribution &t) { seen = p; seen_truth = t; return seen_value; }
struct SpyInlier : public PredictionMetric<JointDistribution> { SpyInlier() : PredictionMetric<JointDistribution>(spy_joint) {} };
HARNESS(gp_functions) {
  num_kernel(4); int n = 4; std::vector<int> g; GroupIndexer<int> ix; for (int i = 0; i < n; i++) ix[symx::choose(nm("group", i).c_str(), 0, i == 0 ? 0 : 2)].push_back(i); symx::assume(ix.size() >= 2); Vec pm = vec("pm", n), y = vec("y", n), s(n); for (int i = 0; i < n; i++) s[i] = 0.5 + i; JointDistribution prior(pm, table(pts(0, n), pts(0, n))); MarginalDistribution truth(y, s); seen_value = rl("v", -1, 1);
  auto f = get_gp_ransac_functions(prior, truth, ix, SpyInlier(), Spy(), SpyOk()); std::vector<int> keys; for (auto &kv : ix) keys.push_back(kv.first); int held = keys.back(); keys.pop_back(); std::vector<size_t> tr; for (int k : keys) for (auto i : ix[k]) tr.push_back(i); auto te = ix[held];
  symx::check_eq(f.consensus_metric(keys), seen_value, "consensus metric value"); bool sub = seen.size() == tr.size() && seen_truth.size() == tr.size(); symx::check(sub, "consensus metric sees the groups' data"); if (sub) for (size_t i = 0; i < tr.size(); i++) { symx::check_eq(seen.mean[i], pm[tr[i]], "consensus prior mean"); symx::check_eq(seen_truth.mean[i], y[tr[i]], "consensus truth"); symx::check_eq(seen_truth.covariance.diagonal()[i], s[tr[i]], "consensus truth variance"); for (size_t j = 0; j < tr.size(); j++) symx::check_eq(seen.covariance(i, j), K[tr[i]][tr[j]], "consensus prior covariance"); }
  symx::check(f.is_valid_candidate(keys) == (seen_value > 0) && seen.size() == tr.size(), "candidate test sees the groups' data");
  auto fit = f.fitter(keys); symx::check_eq(f.inlier_metric(held, fit), seen_value, "inlier metric value"); std::vector<Pt> ptr, pte; Vec yt(tr.size()), mt(tr.size()), ms(te.size()); Mat A(tr.size(), tr.size()); for (size_t i = 0; i < tr.size(); i++) { ptr.push_back(Pt{(int)tr[i]}); yt[i] = y[tr[i]]; mt[i] = pm[tr[i]]; } for (size_t i = 0; i < te.size(); i++) { pte.push_back(Pt{(int)te[i]}); ms[i] = pm[te[i]]; } A = table(ptr, ptr); for (size_t i = 0; i < tr.size(); i++) A(i, i) += s[tr[i]]; Gauss ref = condition(A, yt, mt, table(ptr, pte), table(pte, pte), ms);
  check_vec(seen.mean, ref.mean, "inlier prediction mean"); symx::check_mat(seen.covariance, ref.cov, "inlier prediction covariance"); symx::check(seen_truth.size() == te.size(), "inlier truth size"); if (seen_truth.size() == te.size()) for (size_t i = 0; i < te.size(); i++) symx::check_eq(seen_truth.mean[i], y[te[i]], "inlier truth");
}
HARNESS(gp_metrics) {
  int n = symx::choose("n", 1, 3); Vec y = vec("y", n), s(n), m = vec("m", n); Mat C(n, n); C.setIdentity(); for (int i = 0; i < n; i++) { s[i] = 1; C(i, i) = 2 + i; } JointDistribution p(m, C); MarginalDistribution t(y, s); symx::check_eq(FeatureCountConsensusMetric()(p, t), -n, "feature count"); symx::check(AlwaysAcceptCandidateMetric()(p, t), "always accept"); double ld = 0; for (int i = 0; i < n; i++) ld += std::log(2. + i); symx::check_eq(DifferentialEntropyConsensusMetric()(p, t), 0.5 * (n * (1 + std::log(2 * M_PI)) + ld), "differential entropy");
}
static int group_of[4];
struct ByGroup { int operator()(const Pt &p) const { return group_of[p.id]; } };
struct Count { template <typename F, typename M> double operator()(const RegressionDataset<F> &d, const M &) const { return -(double)d.size() + 0.25 * d.features[0].id; } };
template <class S> static void fit_with(const S &strategy, int n, const Vec &y, const Vec &s, double thr, int need) {
  auto model = table_gp(); RegressionDataset<Pt> data(pts(0, n), MarginalDistribution(y, s)); auto r = model.ransac(strategy, thr, 1, need, 1); symx::check(r.get_name() == "ransac[" + model.get_name() + "]", "name"); auto fm = r.fit(data); auto fit = fm.get_fit(); auto &o = fit.ransac_output; symx::check(fit.has_fit_model() == ransac_success(o.return_code), "a model is fit exactly when a consensus was found"); symx::check(o.iterations.size() == 1, "one iteration"); auto &it = o.iterations[0];
  std::vector<int> cand, used; for (int i = 0; i < n; i++) { if (group_of[i] == it.candidates[0]) cand.push_back(i); } std::vector<Pt> cp; Vec cy(cand.size()), cs(cand.size()); for (size_t i = 0; i < cand.size(); i++) { cp.push_back(Pt{cand[i]}); cy[i] = y[cand[i]]; cs[i] = s[cand[i]]; } RegressionDataset<Pt> cd(cp, MarginalDistribution(cy, cs)); auto cf = table_gp().fit(cd);
  std::set<int> gs(group_of, group_of + n); for (int g : gs) if (g != it.candidates[0]) { double worst = 0; int k = 0; for (int i = 0; i < n; i++) if (group_of[i] == g) { double e = cf.predict(pts(i, 1)).mean()[0] - y[i]; worst += e * e; k++; } double m = std::sqrt(worst / k); bool in = it.inliers.count(g); symx::check_eq(in ? it.inliers.at(g) : it.outliers.at(g), m, "inlier metric of the generic strategy"); symx::check(in == (m <= thr), "inliers of the generic strategy"); }
  if (fit.has_fit_model()) { auto c = o.best.consensus(); for (int i = 0; i < n; i++) for (int g : c) if (g == group_of[i]) used.push_back(i); std::vector<Pt> u; Vec yu(used.size()), su(used.size()); for (size_t i = 0; i < used.size(); i++) { u.push_back(Pt{used[i]}); yu[i] = y[used[i]]; su[i] = s[used[i]]; } auto ref = table_gp().fit(RegressionDataset<Pt>(u, MarginalDistribution(yu, su))).predict(pts(4, 2)).joint(); auto got = fm.predict(pts(4, 2)).joint(); check_vec(got.mean, ref.mean, "predicts from exactly the consensus"); symx::check_mat(got.covariance, ref.covariance, "covariance from exactly the consensus"); }
}
HARNESS(model_fit) {
  num_kernel(6); zero_tables(); num_kernel(6); reset_draws(4); int n = 3; for (int i = 0; i < n; i++) group_of[i] = i; Vec y = vec("y", n), s(n); for (int i = 0; i < n; i++) s[i] = 0.5 + i; fit_with(get_generic_ransac_strategy(RootMeanSquareError(), Count(), ByGroup()), n, y, s, 1.0, symx::choose("need", 1, 2));
}
HARNESS(model_fit_groups) {
  zero_tables(); num_kernel(6); reset_draws(4); int n = 4; static const int T[2][4] = {{0, 1, 0, 2}, {2, 0, 1, 1}}; int k = symx::choose("k", 0, 1); for (int i = 0; i < n; i++) group_of[i] = T[k][i]; Vec y = vec("y", n), s(n); for (int i = 0; i < n; i++) { s[i] = 0.5 + i; if (i > 1) y[i] = 0.5 * i; } fit_with(get_generic_ransac_strategy(RootMeanSquareError(), Count(), ByGroup()), n, y, s, 1.0, 2);
}
HARNESS(equality) {
  RansacOutput<int> a, b; a.return_code = b.return_code = RANSAC_RETURN_CODE_SUCCESS; double x = rl("x", -1, 1), z = rl("z", -1, 1); a.best.candidates = b.best.candidates = {1}; a.best.inliers[2] = x; b.best.inliers[2] = z; symx::check((a == b) == (x == z), "outputs are equal only when their best iterations are"); a.best = b.best; a.best.consensus_metric_value = x; symx::check(!(a == b), "undefined metric differs from a defined one"); b.best.consensus_metric_value = x; symx::check(a == b, "equal outputs are equal");
}
