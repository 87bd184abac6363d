// @bounds: fixed design matrices up to 4 by 3 (square, tall, wide and rank deficient) with every target, and a symbolic 2 by 1 design; conditional Gaussians of 3 entries with one observed entry and every prior, truth and variance (two observed entries of 4 for a fixed prior covariance), every choice and order of indices; fits from a prediction at 1 or 2 features with every prediction and prior covariance; an 11 by 4 design; three units of measurement
// @assume: covariances are positive definite with leading minors at least 0.05
#define ALBATROSS_CEREAL_SUITESPARSE_H
#define ALBATROSS_CEREAL_SERIALIZABLE_SPQR_H
#include <albatross/GP>
#include <albatross/Indexing>
#include <albatross/LeastSquares>
#include <albatross/NullModel>
#include <albatross/src/models/conditional_gaussian.hpp>
#include "common.hpp"
using namespace albatross; using namespace hx;
static void eq(double a, double b, const char *l, double tol = 1e-5) { symx::check_eq(a, b, l, tol); }
struct Ls : public LeastSquares<Ls> {};
static std::vector<Vec> rows(const Mat &A) { std::vector<Vec> r; for (int i = 0; i < A.rows(); i++) r.push_back(A.row(i).transpose()); return r; }
// ---- least squares ----
static void solve(const Mat &A, bool noisy) {
  int m = A.rows(), n = A.cols(); Vec y = vec("y", m); MarginalDistribution t(y); if (noisy) { double v = rl("v", 0, 3); t = MarginalDistribution(y, Vec(Vec::Constant(m, v))); } Ls model; auto fm = model.fit(rows(A), t); Vec x = fm.get_fit().coefs; symx::check(x.size() == n, "one coefficient per column"); if (x.size() != n) return;
  Vec r = A * x - y; for (int j = 0; j < n; j++) { double s = 0; for (int i = 0; i < m; i++) s += A(i, j) * r[i]; eq(s, 0, "residual is orthogonal to the design"); }
  Mat B(2, n); for (int j = 0; j < n; j++) { B(0, j) = rl(nm("b", j), -3, 3); B(1, j) = j - 0.5; } Vec p = fm.predict(rows(B)).mean(); symx::check(p.size() == 2, "one prediction per feature"); if (p.size() != 2) return; for (int i = 0; i < 2; i++) { double s = 0; for (int j = 0; j < n; j++) s += B(i, j) * x[j]; eq(p[i], s, "prediction is the feature times the coefficients"); }
}
static Mat design(int k) { Mat A; switch (k) { case 0: A.resize(3, 2); A << 1, 2, 1, 0.5, -1, 3; break; case 1: A.resize(2, 2); A << 2, 1, 0, -3; break; case 2: A.resize(4, 3); A << 1, 0, 2, 0, 1, 1, 3, -1, 0, 1, 1, 1; break; case 3: A.resize(2, 3); A << 1, 2, 0, 0, 1, -1; break; case 4: A.resize(3, 2); A << 1, 2, 2, 4, -1, -2; break; default: A.resize(3, 1); A << 1, -2, 0.5; } return A; }
HARNESS(least_squares) { int k = symx::choose("design", 0, 5); solve(design(k), symx::choose("noisy", 0, 1)); }
HARNESS(least_squares_symbolic) { Mat A(2, 1); A << rl("a", 0.5, 3), rl("b", -3, 3); Vec y = vec("y", 2); Ls m; auto f = m.fit(rows(A), MarginalDistribution(y)); eq(f.get_fit().coefs[0], (A(0, 0) * y[0] + A(1, 0) * y[1]) / (A(0, 0) * A(0, 0) + A(1, 0) * A(1, 0)), "closed form of one coefficient"); }
HARNESS(variances_differ) { Vec y = vec("y", 3), v = vec("v", 3, 0, 2); symx::assume(v[0] != v[1] || v[1] != v[2]); symx::check(!all_same_value(v), "different variances are told"); Vec w = Vec::Constant(3, v[0]); symx::check(all_same_value(w) && all_same_value(Vec(0)), "equal variances are told"); symx_allow_abort_(1); Ls().fit(rows(design(0)), MarginalDistribution(y, v)); symx::check(false, "different variances are refused"); }
HARNESS(line) {
  int n = symx::choose("n", 2, 4); static const double at[4] = {0.5, -1, 2, 3.25}; std::vector<double> f(at, at + n); Vec y = vec("y", n); LinearRegression lr; auto fm = lr.fit(f, MarginalDistribution(y)); double mx = 0, my = 0; for (int i = 0; i < n; i++) { mx += f[i] / n; my += y[i] / n; } double sxy = 0, sxx = 0; for (int i = 0; i < n; i++) { sxy += (f[i] - mx) * (y[i] - my); sxx += (f[i] - mx) * (f[i] - mx); } double slope = sxy / sxx, off = my - slope * mx;
  eq(fm.get_fit().coefs[0], off, "offset"); eq(fm.get_fit().coefs[1], slope, "slope"); double x = rl("x", -5, 5); Vec p = fm.predict(std::vector<double>{x, 0.}).mean(); symx::check(p.size() == 2, "one prediction per feature"); if (p.size() != 2) return; eq(p[0], off + slope * x, "offset plus slope times the feature"); eq(p[1], off, "offset at zero");
}
HARNESS(line_exact) { double a = rl("a", -3, 3), b = rl("b", -3, 3); std::vector<double> f = {1, 2.5, -0.5}; Vec y(3); for (int i = 0; i < 3; i++) y[i] = a + b * f[i]; RegressionDataset<double> d(f, MarginalDistribution(y)); auto fm = LinearRegression().fit(d); eq(fm.get_fit().coefs[0], a, "exact offset"); eq(fm.get_fit().coefs[1], b, "exact slope"); }
// ---- conditional Gaussian ----
static void conditional(const JointDistribution &prior, const MarginalDistribution &truth, const std::vector<std::size_t> &tr, const std::vector<std::size_t> &pr, double tol) {
  int a = tr.size(), b = pr.size(); Mat A(a, a), C(a, b), S(b, b); Vec y(a), m(a), ms(b); for (int i = 0; i < a; i++) { y[i] = truth.mean[tr[i]]; m[i] = prior.mean[tr[i]]; for (int j = 0; j < a; j++) A(i, j) = prior.covariance(tr[i], tr[j]) + (i == j ? truth.covariance.diagonal()[tr[i]] : 0); for (int j = 0; j < b; j++) C(i, j) = prior.covariance(tr[i], pr[j]); } for (int i = 0; i < b; i++) { ms[i] = prior.mean[pr[i]]; for (int j = 0; j < b; j++) S(i, j) = prior.covariance(pr[i], pr[j]); }
  Gauss g = condition(A, y, m, C, S, ms); ConditionalGaussian model(prior, truth); auto fm = model.fit(tr); auto p = fm.predict(pr); int kind = symx::choose("kind", 0, 2); Vec mean, var; if (kind == 0) mean = p.mean(); else if (kind == 1) { auto q = p.marginal(); mean = q.mean; var = q.covariance.diagonal(); } else { auto q = p.joint(); mean = q.mean; symx::check(q.covariance.rows() == b && q.covariance.cols() == b, "shape"); if (q.covariance.rows() != b) return; for (int i = 0; i < b; i++) for (int j = 0; j < b; j++) eq(q.covariance(i, j), g.cov(i, j), "conditional covariance", tol); }
  check_vec(mean, g.mean, "conditional mean", tol); if (kind == 1) check_vec(var, g.cov.diagonal(), "conditional variance", tol);
  auto pp = model.get_prior(pr); auto tt = model.get_truth(pr); for (int i = 0; i < b; i++) { eq(pp.mean[i], ms[i], "prior of the indices"); eq(tt.mean[i], truth.mean[pr[i]], "truth of the indices"); for (int j = 0; j < b; j++) eq(pp.covariance(i, j), S(i, j), "prior covariance of the indices"); }
}
HARNESS(conditional_one) {
  zero_tables(); sym_kernel(3); Mat P(3, 3); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) P(i, j) = K[i][j]; assume_pd(P); JointDistribution prior(vec("m", 3), P); MarginalDistribution truth(vec("t", 3), vec("v", 3, 0, 2)); static const std::size_t pred[9][2] = {{1, 2}, {2, 0}, {0, 1}, {1, 0}, {2, 2}, {0, 9}, {1, 9}, {2, 9}, {9, 9}}; int t = symx::choose("train", 0, 2), q = symx::choose("pred", 0, 8); std::vector<std::size_t> p; for (auto i : pred[q]) if (i < 9) p.push_back(i); conditional(prior, truth, {std::size_t(t)}, p, 1e-5);
}
HARNESS(conditional_two) {
  num_kernel(4); Mat P(4, 4); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) P(i, j) = K[i][j]; Vec v(4); v << 0.5, 0, 1, 0.25; JointDistribution prior(vec("m", 4), P); MarginalDistribution truth(vec("t", 4), v); static const std::size_t tr[4][2] = {{0, 1}, {3, 1}, {2, 0}, {2, 3}}; static const std::vector<std::size_t> pred[4] = {{2, 0, 1}, {3}, {3, 0}, {1, 2}}; int t = symx::choose("train", 0, 3); conditional(prior, truth, {tr[t][0], tr[t][1]}, pred[symx::choose("pred", 0, 3)], 1e-5);
}
HARNESS(conditional_all) { // no noise: the observed entries come back
  num_kernel(3); Mat P(3, 3); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) P(i, j) = K[i][j]; JointDistribution prior(vec("m", 3), P); MarginalDistribution truth(vec("t", 3)); auto q = ConditionalGaussian(prior, truth).fit({0, 1, 2}).predict(std::vector<std::size_t>{2, 0}).joint(); eq(q.mean[0], truth.mean[2], "noise-free truth comes back"); eq(q.mean[1], truth.mean[0], "noise-free truth comes back, second"); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) eq(q.covariance(i, j), 0, "nothing left unknown");
}
// ---- null model ----
HARNESS(null_model) {
  int n = symx::choose("n", 0, 3), m = symx::choose("m", 1, 3); Vec y = vec("y", m); NullModel nm_; auto fm = nm_.fit(pts(0, m), MarginalDistribution(y)); auto p = fm.predict(pts(3, n)); auto j = p.joint(); auto g = p.marginal(); Vec mu = p.mean(); symx::check(j.size() == size_t(n) && g.size() == size_t(n) && mu.size() == n, "one prediction per feature"); if (j.size() != size_t(n) || g.size() != size_t(n) || mu.size() != n) return; for (int i = 0; i < n; i++) { eq(j.mean[i], 0, "zero mean"); eq(g.mean[i], 0, "zero mean, marginal"); eq(mu[i], 0, "zero mean, mean only"); eq(g.covariance.diagonal()[i], 1e4, "stated variance"); for (int k = 0; k < n; k++) eq(j.covariance(i, k), i == k ? 1e4 : 0, "stated covariance"); }
  if (n > 0) { auto q = nm_.fit_from_prediction(pts(0, n), j).predict(pts(5, 2)).marginal(); eq(q.mean[1], 0, "refit is the null model"); eq(q.covariance.diagonal()[0], 1e4, "refit is the null model, variance"); }
}
// ---- fit from a prediction ----
static void from_prediction(int n, int extra, double tol) { // ids 0..n-1 carry the prediction
  auto u = pts(0, n), s = pts(n, extra); auto gp = table_gp(); Vec pm = vec("pm", n); Mat S(n, n); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) S(i, j) = S(j, i) = i == j ? rl(nm("s", i, j), 0.25, 3) : rl(nm("s", i, j), -1, 1); for (int i = 0; i < n + extra; i++) M[i] = rl(nm("mean", i), -3, 3);
  auto fm = gp.fit_from_prediction(u, JointDistribution(pm, S)); auto back = fm.predict(u).joint(); check_vec(back.mean, pm, "prediction comes back", tol); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) eq(back.covariance(i, j), S(i, j), "covariance comes back", tol); auto bm = fm.predict(u).marginal(); for (int i = 0; i < n; i++) { eq(bm.mean[i], pm[i], "marginal comes back", tol); eq(bm.covariance.diagonal()[i], S(i, i), "variance comes back", tol); }
  if (!extra) return; Mat Kuu = table(u, u), Kus = table(u, s), Ki = inv(Kuu), G = mul(Kus.transpose(), Ki), E = mul(mul(G, S), G.transpose()), Q = mul(G, Kus); auto q = fm.predict(s).joint(); for (int i = 0; i < extra; i++) { double mu = M[n + i]; for (int j = 0; j < n; j++) mu += G(i, j) * (pm[j] - M[j]); eq(q.mean[i], mu, "mean elsewhere follows the prediction", tol); for (int j = 0; j < extra; j++) eq(q.covariance(i, j), K[n + i][n + j] - Q(i, j) + E(i, j), "covariance elsewhere follows the prediction", tol); }
}
HARNESS(from_prediction_one) { zero_tables(); sym_kernel(3); assume_pd(table(pts(0, 1), pts(0, 1))); from_prediction(1, 2, 1e-5); }
HARNESS(from_prediction_two) { zero_tables(); num_kernel(4); from_prediction(2, 2, 1e-5); }
HARNESS(from_prediction_two_symbolic) { zero_tables(); sym_kernel(2); assume_pd(table(pts(0, 2), pts(0, 2))); from_prediction(2, 0, 1e-5); }
HARNESS(from_own_prediction) { // predicting, refitting from the prediction at the training features and predicting again changes nothing
  zero_tables(); num_kernel(4); for (int i = 0; i < 4; i++) M[i] = rl(nm("mean", i), -3, 3); for (int i = 0; i < 2; i++) W[i] = 0.5 + i; Vec y = vec("y", 2); auto gp = table_gp(); auto fm = gp.fit(pts(0, 2), MarginalDistribution(y)); auto u = pts(0, 2), s = pts(2, 2); auto fm2 = gp.fit_from_prediction(u, fm.predict(u).joint()); auto a = fm.predict(s).joint(), b = fm2.predict(s).joint(); check_vec(b.mean, a.mean, "refit predicts the same mean"); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) eq(b.covariance(i, j), a.covariance(i, j), "refit predicts the same covariance");
}
HARNESS(large) { // more rows
  int m = 11, n = 4; Mat A(m, n); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) A(i, j) = 0.5 * ((i * (j + 3) + j * j) % 7) - 1; Vec y = big_vec("y", m, 5); auto fm = Ls().fit(rows(A), MarginalDistribution(y)); Vec x = fm.get_fit().coefs; symx::check(x.size() == n, "one coefficient per column of many"); if (x.size() != n) return; Vec r = A * x - y; for (int j = 0; j < n; j++) { double s = 0; for (int i = 0; i < m; i++) s += A(i, j) * r[i]; eq(s, 0, "residual of many is orthogonal to the design"); }
  Vec p = fm.predict(rows(A)).mean(), want = A * x; check_vec(p, want, "prediction of many", 1e-5);
}
HARNESS(units) { // the unit of the targets does not matter
  Mat A = design(symx::choose("design", 0, 2)); int m = A.rows(), n = A.cols(); Vec y = vec("y", m); double u = unit_of(symx::choose("unit", 0, 2)); Vec a = Ls().fit(rows(A), MarginalDistribution(y)).get_fit().coefs, b = Ls().fit(rows(A), MarginalDistribution(Vec(y * u))).get_fit().coefs, c = Ls().fit(rows(Mat(A * u)), MarginalDistribution(Vec(y * u))).get_fit().coefs; symx::check(a.size() == n && b.size() == n && c.size() == n, "one coefficient per column"); check_vec(Vec(b / u), a, "targets in other units", 1e-5); check_vec(c, a, "targets and features in other units", 1e-5);
}
