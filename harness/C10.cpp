// @bounds: updates by value and in place; up to 4 training, 3 inducing and 2 test points with every assignment to up to 3 independent groups, a fixed kernel and arbitrary targets and mean function; 1 training, 1 inducing and 1 test point with an arbitrary symbolic kernel, noise and nugget; 2 training points with arbitrary symbolic covariances between points; sparse QR replaced by dense QR (SuiteSparse is not installed); 8 training and 4 inducing points in up to 5 groups with a fixed kernel; three units of measurement
// @assume: covariance of the inducing points and of what they leave unexplained positive definite
#include <albatross/SparseGP>
#include <albatross/CovarianceFunctions>
#include "common.hpp"
using namespace albatross; using namespace hx;
static int G[12], U = 2, U0 = 8; static double NU, NM;
struct ByTable { int operator()(const Pt &p) const { return G[p.id]; } };
struct Fixed { int first = -1; template <class C> std::vector<Pt> operator()(const C &, const std::vector<Pt> &) const { return pts(first < 0 ? U0 : first, U); } };
template <class QR = DenseQRImplementation> static auto model(QR qr = QR()) { auto m = sparse_gp_from_covariance_and_mean(TableCov() + measurement_only(TableNoise()), TableMean(), ByTable(), Fixed(), "sparse", qr); m.set_param_value(details::measurement_nugget_name(), NM); m.set_param_value(details::inducing_nugget_name(), NU); return m; }
struct Ref { std::vector<Pt> tr, in; Mat A, Kuu, Kfu, S; Vec r, v;
  Ref(const std::vector<Pt> &tr_, const std::vector<int> &g, const Vec &y, const Vec &noise) : tr(tr_), in(pts(U0, U)) {
    int n = tr.size(); Kuu = table(in, in); for (int i = 0; i < U; i++) Kuu(i, i) = Kuu(i, i) + NU; Kfu = table(tr, in); Mat Q = mul(Kfu, mul(inv(Kuu), Kfu.transpose())); A = Mat::Zero(n, n);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (g[i] == g[j]) A(i, j) = K[tr[i].id][tr[j].id] - Q(i, j) + (i == j ? W[tr[i].id] + noise[i] + NM : 0.);
    r = y; for (int i = 0; i < n; i++) r[i] = y[i] - M[tr[i].id]; Mat KA = mul(Kfu.transpose(), inv(A)); S = inv(Kuu + mul(KA, Kfu)); Mat rm(n, 1); for (int i = 0; i < n; i++) rm(i, 0) = r[i]; v = mul(S, mul(KA, rm)).col(0);
  }
  Gauss at(const std::vector<Pt> &te) const { Mat Ks = table(te, in); Gauss o; Mat vm = v; o.mean = mul(Ks, vm).col(0); for (size_t i = 0; i < te.size(); i++) o.mean[i] += M[te[i].id]; o.cov = table(te, te) - mul(Ks, mul(inv(Kuu), Ks.transpose())) + mul(Ks, mul(S, Ks.transpose())); return o; }
};
template <class F> static void compare(const F &fit, const std::vector<Pt> &te, const Gauss &ref, double tol = 1e-5) {
  const auto p = fit.predict(te); check_vec(p.mean(), ref.mean, "mean", tol); const JointDistribution j = p.joint(); check_vec(j.mean, ref.mean, "joint mean", tol); symx::check_mat(j.covariance, ref.cov, "joint covariance", tol); const MarginalDistribution m = p.marginal(); check_vec(m.mean, ref.mean, "marginal mean", tol); check_vec(Vec(m.covariance.diagonal()), Vec(ref.cov.diagonal()), "marginal variance", tol);
}
static std::vector<int> groups(int n) { std::vector<int> g; for (int i = 0; i < n; i++) { g.push_back(symx::choose(nm("group", i).c_str(), 0, i == 0 ? 1 : 2)); G[i] = g[i]; } return g; }
static void setup() { num_kernel(12); NM = 0.0625; NU = 0.125; for (int i = 0; i < 12; i++) { W[i] = 0.25 + 0.0625 * i; M[i] = 0; G[i] = 0; } }
static Vec noises(int n) { Vec s(n); for (int i = 0; i < n; i++) s[i] = i == 1 ? 0. : 0.5 + 0.25 * i; return s; }
static void means_of(int n) { for (int i = 0; i < n; i++) M[i] = rl(nm("m", i), -3, 3); }
HARNESS(posterior) { // every grouping, numeric kernel
  setup(); int n = 3; auto g = groups(n); means_of(6); Vec y = vec("y", n), s = noises(n); Ref ref(pts(0, n), g, y, s); auto m = model(); auto fit = m.fit(RegressionDataset<Pt>(pts(0, n), MarginalDistribution(y, s))); compare(fit, pts(4, 2), ref.at(pts(4, 2))); compare(fit, pts(1, 1), ref.at(pts(1, 1)));
}
HARNESS(posterior_more) {
  setup(); int n = 4; static const int C[4][4] = {{0, 1, 0, 1}, {2, 1, 1, 0}, {0, 0, 0, 0}, {3, 2, 1, 0}}; int k = symx::choose("k", 0, 3); std::vector<int> g(C[k], C[k] + 4); for (int i = 0; i < 4; i++) G[i] = g[i]; U = symx::choose("inducing", 1, 3); means_of(6); Vec y = vec("y", n), s = noises(n); Ref ref(pts(0, n), g, y, s); auto data = RegressionDataset<Pt>(pts(0, n), MarginalDistribution(y, s)); compare(model().fit(data), pts(4, 2), ref.at(pts(4, 2))); compare(model(SPQRImplementation()).fit(data), pts(4, 2), ref.at(pts(4, 2))); U = 2;
}
HARNESS(likelihood) {
  setup(); int n = 3; auto g = groups(n); means_of(3); Vec y = vec("y", n), s = noises(n); Ref ref(pts(0, n), g, y, s); auto m = model(); double got = m.log_likelihood(RegressionDataset<Pt>(pts(0, n), MarginalDistribution(y, s))); Mat C = ref.A + mul(ref.Kfu, mul(inv(ref.Kuu), ref.Kfu.transpose())), r = ref.r; double q = mul(r.transpose(), mul(inv(C), r))(0, 0); symx::check_eq(got, -0.5 * (q + std::log(det(C)) + n * std::log(2 * M_PI)) + m.prior_log_likelihood(), "log likelihood", 1e-5);
}
HARNESS(inducing_is_training) { // with the training points as inducing points and no nugget the sparse model is the exact GP
  setup(); NM = NU = 0; int n = 2; U = n; U0 = 0; auto g = groups(n); means_of(4); Vec y = vec("y", n), s = noises(n); auto fit = model().fit(RegressionDataset<Pt>(pts(0, n), MarginalDistribution(y, s))); Mat A = table(pts(0, n), pts(0, n)); for (int i = 0; i < n; i++) A(i, i) += W[i] + s[i]; compare(fit, pts(2, 2), condition(A, y, means(pts(0, n)), table(pts(0, n), pts(2, 2)), table(pts(2, 2), pts(2, 2)), means(pts(2, 2)))); U = 2; U0 = 8;
}
HARNESS(update) {
  setup(); int n = 4, k = symx::choose("first", 1, 3); static const int C[3][4] = {{0, 0, 0, 0}, {1, 0, 0, 1}, {0, 1, 2, 3}}; int c = symx::choose("k", 0, 2); std::vector<int> g(4); for (int i = 0; i < 4; i++) { G[i] = C[c][i]; g[i] = C[c][i] + (i >= k ? 10 : 0); } means_of(6); Vec y = vec("y", n), s = noises(n); Ref ref(pts(0, n), g, y, s); auto fit = model().fit(RegressionDataset<Pt>(pts(0, k), MarginalDistribution(y.head(k), s.head(k)))); RegressionDataset<Pt> more(pts(k, n - k), MarginalDistribution(y.tail(n - k), s.tail(n - k))); auto up = fit; int how = symx::choose("how", 0, 3); if (how == 0) up = update(fit, more); else if (how == 1) up = fit.update(more.features, more.targets); else if (how == 2) up.update_in_place(more); else up.update_in_place(more.features, more.targets); compare(up, pts(4, 2), ref.at(pts(4, 2)));
}
static void update_more(int k, double tol) { // three inducing points, every order in which the decomposition can pivot them
  setup(); int n = 3, o = symx::choose("order", 0, 5); U = 3; static const double D[6][3] = {{0, 3, 6}, {0, 6, 3}, {3, 0, 6}, {3, 6, 0}, {6, 0, 3}, {6, 3, 0}}; for (int i = 0; i < 3; i++) K[U0 + i][U0 + i] += D[o][i]; std::vector<int> g = {0, k > 1 ? 1 : 10, 11}; G[1] = 1; G[2] = 1; means_of(4); Vec y = vec("y", n), s = noises(n); g[1] = k > 1 ? 1 : 11; Ref ref(pts(0, n), g, y, s); auto fit = model().fit(RegressionDataset<Pt>(pts(0, k), MarginalDistribution(y.head(k), s.head(k)))); auto up = update(fit, RegressionDataset<Pt>(pts(k, n - k), MarginalDistribution(y.tail(n - k), s.tail(n - k)))); compare(up, pts(4, 1), ref.at(pts(4, 1)), tol); U = 2;
}
HARNESS(update_three_inducing) { update_more(symx::choose("first", 1, 2), 1e-5); }
HARNESS(rebase) {
  setup(); int n = 3; std::vector<int> g = {0, 1, 0}; G[1] = 1; means_of(12); Vec y = vec("y", n), s = noises(n); Ref ref(pts(0, n), g, y, s); auto fit = model().fit(RegressionDataset<Pt>(pts(0, n), MarginalDistribution(y, s))); int first = symx::choose("first", 5, 6), k = symx::choose("size", 1, 2); auto z = pts(first, k); Gauss at = ref.at(z); auto re = rebase_inducing_points(fit, z); symx::check(re.get_fit().train_features == z, "new inducing points"); compare(re, z, at, 1e-4);
  auto te = pts(3, 2); Mat G2 = mul(table(te, z), inv(table(z, z))); Gauss e; Mat dm(k, 1); for (int i = 0; i < k; i++) dm(i, 0) = at.mean[i] - M[z[i].id]; e.mean = mul(G2, dm).col(0) + means(te); e.cov = table(te, te) - mul(G2, table(z, te)) + mul(G2, mul(at.cov, G2.transpose())); compare(re, te, e, 1e-4);
}
static void symbolic(int n, bool diagonal) { U = 1; zero_tables(); if (diagonal) { NM = rl("nm", 0, 1); NU = rl("nu", 0, 1); } else { NM = 0.125; NU = 0.25; } std::vector<int> id = {0, 1, 4, 8}; for (int a : id) for (int b : id) if (b <= a) K[a][b] = K[b][a] = a == b ? diagonal ? rl(nm("k", a, b), 0.5, 4) : 1.5 : rl(nm("k", a, b), -1, 1); for (int i = 0; i < 2; i++) { G[i] = 0; if (diagonal) W[i] = rl(nm("w", i), 0, 1); } if (n == 2) G[1] = symx::choose("split", 0, 1); std::vector<int> g = {G[0], G[1]}; g.resize(n); Vec y = vec("y", n), s(n); for (int i = 0; i < n; i++) s[i] = diagonal ? rl(nm("s", i), 0.1, 2) : 0.5 + i; Ref ref(pts(0, n), g, y, s); assume_pd(ref.A); auto fit = model().fit(RegressionDataset<Pt>(pts(0, n), MarginalDistribution(y, s))); compare(fit, pts(4, 1), ref.at(pts(4, 1))); U = 2; }
HARNESS(symbolic_kernel) { symbolic(1, true); }
HARNESS(symbolic_covariances) { symbolic(2, false); }
HARNESS(settings) {
  setup(); auto m = model(); m.set_param_value(details::measurement_nugget_name(), 0.5); m.set_param_value(details::inducing_nugget_name(), 0.75); auto p = m.get_params(); symx::check(p.at(details::measurement_nugget_name()).value == 0.5 && p.at(details::inducing_nugget_name()).value == 0.75, "nuggets are parameters"); Fixed f; f.first = 6; m.set_inducing_point_strategy(std::move(f)); symx::check(m.get_inducing_point_strategy().first == 6, "inducing point strategy is replaced"); Vec y = vec("y", 2), s = noises(2); auto fit = m.fit(RegressionDataset<Pt>(pts(0, 2), MarginalDistribution(y, s))); symx::check(fit.get_fit().train_features == pts(6, 2), "inducing points come from the strategy");
}
struct MaxG { int v = 0; int operator()(const Pt &p) const { return v ? 0 : p.id; } };
HARNESS(settings_grouper) {
  setup(); auto m = sparse_gp_from_covariance_and_mean(TableCov(), TableMean(), MaxG(), Fixed(), "sparse"); MaxG g; g.v = 1; m.set_grouper_function(std::move(g)); symx::check(m.get_grouper_function().v == 1, "grouper function is replaced"); Vec y = vec("y", 2), s = noises(2); NM = NU = details::DEFAULT_NUGGET; for (double &w : W) w = 0; Ref ref(pts(0, 2), {0, 0}, y, s); compare(m.fit(RegressionDataset<Pt>(pts(0, 2), MarginalDistribution(y, s))), pts(4, 1), ref.at(pts(4, 1)));
}
HARNESS(uniform_points) {
  int n = symx::choose("n", 1, 3), k = symx::choose("points", 2, 4); std::vector<double> x; for (int i = 0; i < n; i++) x.push_back(rl(nm("x", i), -10, 10)); UniformlySpacedInducingPoints s(k); auto u = s(ZeroMean(), x); symx::check((int)u.size() == k, "number of inducing points"); double lo = x[0], hi = x[0]; for (double v : x) { lo = v < lo ? v : lo; hi = v > hi ? v : hi; } for (int i = 0; i < k; i++) symx::check_eq(u[i], lo + (hi - lo) * i / (k - 1), "uniformly spaced inducing points");
}
HARNESS(large) { // more training points and groups
  big_tables(16); NM = 0.0625; NU = 0.125; U = 4; int n = 8, w = symx::choose("groups", 0, 1); std::vector<int> g; U0 = 8; for (int i = 0; i < n; i++) { G[i] = w ? (i * 3) % 5 : i == 6 ? 7 : (i * 5) % 3; g.push_back(G[i]); } Vec y = big_vec("y", n, 3), s = big_noise(n); Ref ref(pts(0, n), g, y, s); auto m = model(); auto data = RegressionDataset<Pt>(pts(0, n), MarginalDistribution(y, s)); auto fit = m.fit(data); compare(fit, pts(12, 3), ref.at(pts(12, 3))); Mat C = ref.A + mul(ref.Kfu, mul(inv(ref.Kuu), ref.Kfu.transpose())), r = ref.r; double q = mul(r.transpose(), mul(inv(C), r))(0, 0); symx::check_eq(m.log_likelihood(data), -0.5 * (q + std::log(det(C)) + n * std::log(2 * M_PI)) + m.prior_log_likelihood(), "log likelihood of many", 1e-5);
  std::vector<int> h = g; for (int i = 5; i < n; i++) h[i] += 10; Ref two(pts(0, n), h, y, s); auto up = update(m.fit(RegressionDataset<Pt>(pts(0, 5), MarginalDistribution(y.head(5), s.head(5)))), RegressionDataset<Pt>(pts(5, 3), MarginalDistribution(y.tail(3), s.tail(3)))); compare(up, pts(12, 3), two.at(pts(12, 3))); U = 2;
}
HARNESS(units) { // the unit of the targets does not matter
  setup(); NM = NU = 0; int n = 3; std::vector<int> g = {0, 1, 0}; G[1] = 1; means_of(6); Vec y = vec("y", n), s = noises(n); double u = unit_of(symx::choose("unit", 0, 2)); Ref ref(pts(0, n), g, y, s); Gauss a = ref.at(pts(4, 2)); rescale_tables(u); auto j = model().fit(RegressionDataset<Pt>(pts(0, n), MarginalDistribution(Vec(y * u), Vec(s * (u * u))))).predict(pts(4, 2)).joint(); check_vec(Vec(j.mean / u), a.mean, "mean in other units", 1e-5); symx::check_mat(Mat(j.covariance / (u * u)), a.cov, "covariance in other units", 1e-5);
}
