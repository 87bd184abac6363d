// @bounds: pairs of objects with 0 to 3 entries each, every number of the part which may differ symbolic, every choice of the part which differs; factorisations of up to 3 rows with one symbolic entry
// @assume: no value is NaN (except the consensus metric of a RANSAC iteration)
// @flags: -D_GLIBCXX_EXTERN_TEMPLATE=0
#define ALBATROSS_CEREAL_SUITESPARSE_H
#define ALBATROSS_CEREAL_SERIALIZABLE_SPQR_H
#include <albatross/GP>
#include <albatross/SparseGP>
#include <albatross/CovarianceFunctions>
#include <albatross/LeastSquares>
#include <albatross/NullModel>
#include <albatross/Ransac>
#include <albatross/Indexing>
#include <albatross/Graph>
#include "common.hpp"
using namespace albatross; using namespace hx;
// equal in both directions exactly when the parts are; equal to itself and to a copy
template <class T> static void judge(const T &a, const T &b, bool same, const char *what) { symx::check((a == b) == same, what); symx::check((b == a) == same, what); symx::check(a == a && b == b, "equal to itself"); T c(a), d(a); d = b; symx::check(c == a && d == b, "a copy is equal"); symx::check((c == d) == same, "copies compare as the originals do"); }
static bool same(const Vec &a, const Vec &b) { if (a.size() != b.size()) return false; for (int i = 0; i < a.size(); i++) if (a[i] != b[i]) return false; return true; }
static bool same(const Mat &a, const Mat &b) { if (a.rows() != b.rows() || a.cols() != b.cols()) return false; for (int i = 0; i < a.rows(); i++) for (int j = 0; j < a.cols(); j++) if (a(i, j) != b(i, j)) return false; return true; }
static Mat mat(const char *n, int r, int c) { Mat m(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = rl(nm(n, i, j), -3, 3); return m; }
// a second value of one part: the same expression, or any other number
static double x, y; static bool eqv; static void draw() { x = rl("x", -3, 3); y = rl("y", -3, 3); eqv = x == y; }
static Vec one(double v, int n = 2) { Vec r(n); for (int i = 0; i < n; i++) r[i] = i + 1 == n ? v : 0.5 + i; return r; }

// ---- distributions and datasets ----
HARNESS(marginal) { int n = symx::choose("n", 0, 2), m = symx::choose("m", 0, 2), k = symx::choose("part", 0, 2); Vec a = vec("a", n), b = k == 1 && m == n ? a : vec("b", m), v = vec("v", n, 0, 3), w = k == 0 && m == n ? v : vec("w", m, 0, 3); judge(MarginalDistribution(a, v), MarginalDistribution(b, w), same(a, b) && same(v, w), "marginals are equal when means and variances are"); }
HARNESS(joint) { int n = symx::choose("n", 0, 2), m = symx::choose("m", 0, 2), k = symx::choose("part", 0, 1); Vec a = vec("a", n), b = k == 1 && m == n ? a : vec("b", m); Mat v = mat("v", n, n), w = k == 0 && m == n ? v : mat("w", m, m); judge(JointDistribution(a, v), JointDistribution(b, w), same(a, b) && same(v, w), "joints are equal when means and covariances are"); }
HARNESS(dataset) {
  int k = symx::choose("part", 0, 5); draw(); std::vector<double> f = {1, 2}, g = f; Vec t = one(0), u = t, v = one(1), w = v; bool s = eqv; if (k == 0) { f[0] = x; g[0] = y; } else if (k == 1) { t[1] = x; u[1] = y; } else if (k == 2) { v[0] = x * x; w[0] = y * y; s = x * x == y * y; } else s = k == 3;
  RegressionDataset<double> a(f, MarginalDistribution(t, v)), b(g, MarginalDistribution(u, w)); a.metadata["k"] = b.metadata["k"] = "v"; if (k == 4) b.metadata["k"] = "w"; if (k == 5) b.metadata["l"] = "v"; judge(a, b, s, "datasets are equal when features, targets and metadata are"); if (k == 0) { RegressionDataset<double> c({1.}, Vec(Vec::Ones(1))), e; judge(a, c, false, "datasets of different sizes differ"); judge(c, e, false, "an empty dataset differs from others"); judge(e, RegressionDataset<double>(), true, "empty datasets are equal"); }
}

HARNESS(approximate) { // nearly equal: every copy is, and other sizes are not
  int n = symx::choose("n", 0, 2), m = symx::choose("m", 0, 2), w = symx::choose("joint", 0, 1); Vec a = one(rl("a", -3, 3), n), b = m == n ? a : one(rl("b", -3, 3), m); if (w) { JointDistribution p(a, Mat(Mat::Identity(n, n))), q(b, Mat(Mat::Identity(m, m))); symx::check(p.approximately_equal(q) == (n == m), "joints of different sizes are not nearly equal"); if (n == 2 && m == 2) { Vec c = a; c[0] += 1; symx::check(!p.approximately_equal(JointDistribution(c, Mat(Mat::Identity(2, 2)))), "far means"); symx::check(!p.approximately_equal(JointDistribution(a, Mat(2 * Mat::Identity(2, 2)))), "far covariances"); } }
  else { MarginalDistribution p(a, Vec(Vec::Ones(n))), q(b, Vec(Vec::Ones(m))); symx::check(p.approximately_equal(q) == (n == m), "marginals of different sizes are not nearly equal"); if (n == 2 && m == 2) { Vec c = a; c[0] += 1; symx::check(!p.approximately_equal(MarginalDistribution(c, Vec(Vec::Ones(2)))), "far means"); symx::check(!p.approximately_equal(MarginalDistribution(a, Vec(2 * Vec::Ones(2)))), "far variances"); } }
}

// ---- parameters ----
HARNESS(parameters) {
  draw(); int k = symx::choose("part", 0, 3); Parameter a(x, UniformPrior(-4., 4.)), b(k == 0 ? y : x, k == 1 ? PriorContainer(UniformPrior(-4., 5.)) : k == 2 ? PriorContainer(LogScaleUniformPrior(1., 4.)) : PriorContainer(UniformPrior(-4., 4.))); bool s = k == 0 ? eqv : k == 3; judge(a, b, s, "parameters are equal when values and priors are"); symx::check((a != b) == !s && (b != a) == !s, "unequal is the opposite"); symx::check((a == y) == eqv, "a parameter and a value");
  ParameterStore p, q; p["a"] = a; p["z"] = Parameter(1.); q["a"] = b; q["z"] = Parameter(1.); judge(p, q, s, "stores are equal when their parameters are"); q["zz"] = Parameter(1.); judge(p, q, false, "a store with one more parameter differs");
}

// ---- models ----
template <class F> static void models(F make, bool named, const char *what) { // make(value of a parameter, name)
  int k = symx::choose("part", 0, 3); auto a = make(x, "first"), b = make(k == 0 ? y : x, k == 1 && named ? "second" : "first"); a.insights["i"] = "1"; b.insights["i"] = k == 2 ? "2" : "1"; judge(a, b, k == 0 ? eqv : k == 1 ? !named : k == 3, what); if (k == 3) { b.insights["j"] = "1"; judge(a, b, false, "more insights"); }
}
static void draw_positive() { x = rl("x", 0.5, 3); y = rl("y", 0.5, 3); eqv = x == y; }
HARNESS(gp_models) { draw_positive(); models([](double v, const char *n) { return gp_from_covariance(Constant(v) + IndependentNoise<double>(1.), n); }, true, "Gaussian processes are equal when parameters, name and insights are"); }
HARNESS(gp_mean_models) { draw_positive(); models([](double v, const char *n) { LinearMean m; m.set_param_value("slope", v); return gp_from_covariance_and_mean(Constant(1.), m, n); }, true, "Gaussian processes with a mean"); }
HARNESS(sparse_models) { draw_positive(); int w = symx::choose("which", 0, 1); models([&](double v, const char *n) { auto m = sparse_gp_from_covariance(Constant(1.), LeaveOneOutGrouper(), UniformlySpacedInducingPoints(3), n, DenseQRImplementation()); m.set_param_value(w ? details::measurement_nugget_name() : details::inducing_nugget_name(), v); return m; }, true, "sparse Gaussian processes are equal when parameters, nuggets, name and insights are"); }
HARNESS(null_models) { draw_positive(); models([](double v, const char *) { ParameterStore s; s["p"] = Parameter(v); NullModel m(s); symx::check(m.get_params() == s, "parameters of a model of nothing"); return m; }, false, "models of nothing"); symx::check(Fit<NullModel>() == Fit<NullModel>(), "fits of nothing are equal"); }
static Fit<LeastSquares<LinearRegression>> lsf(const Vec &c) { Fit<LeastSquares<LinearRegression>> f; f.coefs = c; return f; }
HARNESS(regression) { int n = symx::choose("n", 0, 2), m = symx::choose("m", 0, 2); Vec a = vec("a", n), b = vec("b", m); judge(lsf(a), lsf(b), same(a, b), "fits of a regression are equal when the coefficients are"); LinearRegression r, q; q.insights["k"] = "v"; using FM = FitModel<LinearRegression, Fit<LeastSquares<LinearRegression>>>; judge(FM(r, lsf(a)), FM(r, lsf(b)), same(a, b), "fitted models are equal when their fits are"); symx::check(!(FM(r, lsf(a)) == FM(q, lsf(a))), "and their models are"); }

// ---- factorisations ----
static Mat pd(double v, int n = 2) { Mat m = Mat::Identity(n, n) * 4; for (int i = 0; i + 1 < n; i++) m(i, i + 1) = m(i + 1, i) = 1 + i * 0.5; if (n) m(n - 1, n - 1) = v; return m; }
HARNESS(factorisations) {
  int n = symx::choose("n", 0, 3), m = symx::choose("m", 0, 3); x = rl("x", 1.5, 3); y = rl("y", 1.5, 3); eqv = x == y; Eigen::SerializableLDLT a, b; if (n) a = Eigen::SerializableLDLT(pd(x, n)); if (m) b = Eigen::SerializableLDLT(pd(y, m)); judge(a, b, n == m && (n == 0 || eqv), "factorisations are equal when the matrices are");
}
HARNESS(factorisation_off_diagonal) { x = rl("x", -1.5, 1.5); y = rl("y", -1.5, 1.5); Mat a(2, 2), b(2, 2); a << 4, x, x, 3; b << 4, y, y, 3; judge(Eigen::SerializableLDLT(a), Eigen::SerializableLDLT(b), x == y, "factorisations which differ off the diagonal"); Mat c(2, 2); c << 3, x, x, 4; symx::check(!(Eigen::SerializableLDLT(a) == Eigen::SerializableLDLT(c)), "the order of the pivots matters"); }
HARNESS(inverses) { int n = symx::choose("n", 0, 2), m = symx::choose("m", 0, 2); Mat a = mat("a", n, n), b = mat("b", m, m); judge(DirectInverse(a), DirectInverse(b), same(a, b), "inverses are equal when the matrices are"); }
HARNESS(explained) { x = rl("x", 1.5, 3); y = rl("y", 1.5, 3); eqv = x == y; int k = symx::choose("part", 0, 2), n = symx::choose("n", 1, 2); Mat in = Mat::Identity(2, 2), other = k == 2 ? Mat(Mat::Identity(n, n)) : in; in(0, 1) = k == 1 ? x : 0; if (k < 2) other(0, 1) = k == 1 ? y : 0; judge(ExplainedCovariance(pd(k == 0 ? x : 2.5), in), ExplainedCovariance(pd(k == 0 ? y : 2.5, k == 2 ? n : 2), other), k == 2 ? n == 2 : eqv, "explained covariances are equal when both matrices are"); }
HARNESS(block_symmetric) { x = rl("x", 1.5, 3); y = rl("y", 1.5, 3); eqv = x == y; int k = symx::choose("part", 0, 3); auto mk = [&](double v) { Eigen::SerializableLDLT A(pd(k == 0 ? v : 2.5)), S(pd(k == 2 ? v : 2.5)); Mat B(2, 2); B << 1, 0.5, 0, k == 1 ? v : 1; return BlockSymmetric<Eigen::SerializableLDLT>(A, B, S); }; if (k == 3) { Mat B = Mat::Ones(2, 1); judge(mk(x), BlockSymmetric<Eigen::SerializableLDLT>(Eigen::SerializableLDLT(pd(2.5)), B, Eigen::SerializableLDLT(pd(2.5, 1))), false, "block factorisations of different sizes"); return; } judge(mk(x), mk(y), eqv, "block factorisations are equal when their blocks are"); }

// ---- fits of processes ----
HARNESS(gp_fits) {
  draw(); int k = symx::choose("part", 0, 3); using F = Fit<GPFit<DirectInverse, double>>; auto mk = [&](double v) { Mat c = pd(2.); if (k == 1) c(0, 1) = v; return F(std::vector<double>{1., k == 0 ? v : 2.}, DirectInverse(c), one(k == 2 ? v : 0.)); }; judge(mk(x), mk(y), k == 3 || eqv, "fits are equal when features, covariance and information are"); F small({1.}, DirectInverse(Mat::Ones(1, 1)), Vec::Ones(1)); judge(mk(x), small, false, "fits of different sizes differ"); judge(F(), small, false, "an empty fit differs from others");
  auto m = gp_from_covariance(Constant(1.) + IndependentNoise<double>(1.), "m"), o = gp_from_covariance(Constant(2.) + IndependentNoise<double>(1.), "m"); using FM = FitModel<decltype(m), F>; judge(FM(m, mk(x)), FM(m, mk(y)), k == 3 || eqv, "fitted processes are equal when the fits are"); judge(FM(m, mk(x)), FM(o, mk(x)), false, "and the models are");
}
HARNESS(gp_fitted) { // fits of the same model to data with other targets
  zero_tables(); num_kernel(4); Vec t = vec("t", 2), u = vec("u", 2); int k = symx::choose("part", 0, 3); auto m = table_gp(); auto a = m.fit(RegressionDataset<Pt>(pts(0, 2), MarginalDistribution(t, Vec::Constant(2, 0.5)))), b = m.fit(RegressionDataset<Pt>(pts(k == 1 ? 1 : 0, k == 3 ? 1 : 2), MarginalDistribution(Vec((k == 0 ? u : t).head(k == 3 ? 1 : 2)), Vec::Constant(k == 3 ? 1 : 2, k == 2 ? 0.75 : 0.5)))); judge(a, b, k == 0 && same(t, u), "models fitted to other data differ");
}
HARNESS(sparse_fits) {
  draw(); int k = symx::choose("part", 0, 7); using F = Fit<SparseGPFit<double>>; auto mk = [&](double v, bool second) { Mat R(2, 2); R << 1, k == 2 ? v : 0.5, 0, 2; Eigen::PermutationMatrixX P(2); P.setIdentity(); if (k == 5 && second) P.applyTranspositionOnTheRight(0, 1); Mat c(2, 2); c << 4, k == 1 ? v / 2 : 1, k == 1 ? v / 2 : 1, 3; return F({1., k == 0 ? v : 2.}, Eigen::SerializableLDLT(c), R, P, one(k == 3 ? v : 0.), k == 4 && second ? 1 : 2); };
  judge(mk(x, false), mk(y, true), k < 4 ? eqv : k > 5, "sparse fits are equal when every part is");
}

// ---- RANSAC ----
HARNESS(ransac) {
  draw(); int k = symx::choose("part", 0, 7); auto it = [&](double v, bool second) { RansacIteration<int> r; r.candidates = {1, k == 0 && second ? 3 : 2}; r.inliers[k == 1 && second ? 5 : 4] = k == 2 ? v : 1; r.outliers[7] = k == 3 ? v : 1; if (k == 4 && second) r.outliers[8] = 1; if (k != 5) r.consensus_metric_value = k == 6 ? v : 1; else if (second) r.consensus_metric_value = v; return r; };
  bool s = k == 2 || k == 3 || k == 6 ? eqv : k == 7; auto a = it(x, false), b = it(y, true); judge(a, b, s, "iterations are equal when every part is"); RansacOutput<int> o, p; int where = symx::choose("where", 0, 3); if (where == 0) { o.best = a; p.best = b; } else if (where == 1) { o.iterations = {a, a}; p.iterations = {a, b}; } else if (where == 2) { o.best = p.best = a; o.return_code = RANSAC_RETURN_CODE_SUCCESS; p.return_code = RANSAC_RETURN_CODE_FAILURE; s = false; } else { o.best = p.best = a; o.iterations = {a}; p.iterations = {a, a}; s = false; } judge(o, p, s, "outputs are equal when every part is");
}
HARNESS(ransac_fits) {
  draw(); using M = LinearRegression; using RF = Fit<RansacFit<M, int, double, int>>; using FM = typename fit_model_type<M, double>::type; int p = symx::choose("first", 0, 1), q = symx::choose("second", 0, 1), k = symx::choose("part", 0, 1); RansacOutput<int> o, r; o.best.consensus_metric_value = k ? x : 1; r.best.consensus_metric_value = k ? y : 1; M m; FM f(m, lsf(one(k ? 0 : x))), g(m, lsf(one(k ? 0 : y))); RF a = p ? RF(f, o) : RF(o), b = q ? RF(g, r) : RF(r); judge(a, b, p == q && (k || p ? eqv : true), "RANSAC fits are equal when models and outputs are");
}

// ---- features and containers ----
HARNESS(combinations) { draw(); int k = symx::choose("part", 0, 3); using L = LinearCombination<double>; auto mk = [&](double v) { return L({1., k == 0 ? v : 2.}, one(k == 1 ? v : 3.)); }; judge(mk(x), mk(y), k > 1 || eqv, "combinations are equal when values and coefficients are"); judge(mk(x), L({1.}), false, "combinations of different sizes differ"); judge(L(), L(), true, "empty combinations are equal"); if (k == 2) judge(L({x, y}), L({x, y}, Vec(Vec::Ones(2))), true, "coefficients are one when not given"); }
HARNESS(edges) { draw(); int k = symx::choose("part", 0, 4); using E = Edge<int>; E a(1, 2, k == 2 ? x : 1., 0), b(k == 0 ? 3 : 1, k == 1 ? 3 : 2, k == 2 ? y : 1., k == 3 ? 7 : 0); bool s = k == 2 ? eqv : k > 2; judge(a, b, s, "edges are equal when the ends and costs are"); }
HARNESS(groups) { draw(); int k = symx::choose("part", 0, 3); std::map<int, double> p = {{1, 2.}, {2, k == 0 ? x : 1.}}, q = {{1, 2.}, {k == 1 ? 3 : 2, k == 0 ? y : 1.}}; if (k == 2) q[9] = 1; Grouped<int, double> a(p), b(q); judge(a, b, k == 0 ? eqv : k == 3, "groups are equal when keys and values are"); }
