// @flags: -D_GLIBCXX_EXTERN_TEMPLATE=0
// @bounds: fitted models with their model, RANSAC fits with and without a consensus; binary and portable binary archives; matrices up to 3x3 and sparse ones up to 3x3 with every entry symbolic (sizes and sparsity patterns chosen), up to 3 features, Gaussian process fits with up to 3 training and 2 inducing points, one parameter of each prior kind with symbolic value and hyperparameters; matrices of 9 by 13 and 12 by 10, vectors of 40, fits to 12 points, 14 parameters
// @assume: zstd and gzip are lossless (stand-ins with zstd's framing and error codes); text archives (JSON, XML) print and parse decimals and are not encoded
#include "symx.h"
#define ALBATROSS_CEREAL_SUITESPARSE_H
#define ALBATROSS_CEREAL_SERIALIZABLE_SPQR_H
#include <albatross/serialize/GP>
#include <albatross/serialize/LeastSquares>
#include <albatross/serialize/Ransac>
#include <albatross/CovarianceFunctions>
#include <albatross/LeastSquares>
#include "common.hpp"
#include "arch.hpp"
using namespace albatross; using namespace hx;
static void eq(double a, double b, const char *l, double tol = 1e-6) { symx::check_eq(a, b, l, tol); }
struct Bin { using O = cereal::BinaryOutputArchive; using I = cereal::BinaryInputArchive; };
struct Por { using O = cereal::PortableBinaryOutputArchive; using I = cereal::PortableBinaryInputArchive; };
template <class T> static void trip(const T &a, T &b) { Bytes s; if (symx::choose("portable", 0, 1)) { put<Por::O>(s, a); get<Por::I>(s, b); } else { put<Bin::O>(s, a); get<Bin::I>(s, b); } symx::check(s.at == s.data.size(), "everything written is read"); }
static Mat smat(const char *n, int r, int c) { Mat m(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = rl(nm(n, i, j), -5, 5); return m; }
static void same(const Mat &a, const Mat &b, const char *l) { symx::check(a.rows() == b.rows() && a.cols() == b.cols(), l); if (a.rows() == b.rows() && a.cols() == b.cols()) for (int i = 0; i < a.rows(); i++) for (int j = 0; j < a.cols(); j++) eq(a(i, j), b(i, j), l); }
HARNESS(matrices) { int r = symx::choose("r", 0, 3), c = symx::choose("c", 0, 3); Mat a = smat("a", r, c), b = Mat::Ones(symx::choose("old", 0, 2), 2); trip(a, b); same(b, a, "matrix"); }
HARNESS(vectors) { int n = symx::choose("n", 0, 4); Vec a = vec("a", n), b(1); b << 3; trip(a, b); same(b, a, "vector"); Eigen::Vector3d f, g; f << rl("x", -1, 1), rl("y", -1, 1), rl("z", -1, 1); g.setZero(); trip(f, g); same(g, f, "fixed size"); Eigen::MatrixXi i(2, 1), k; i << symx::integer("i", -9, 9), 5; trip(i, k); symx::check(k.rows() == 2 && k.cols() == 1 && k(0, 0) == i(0, 0) && k(1, 0) == 5, "integers"); }
HARNESS(diagonals) { int n = symx::choose("n", 0, 3); DiagonalMatrixXd a(vec("a", n)), b; trip(a, b); same(b.diagonal(), a.diagonal(), "diagonal matrix"); }
HARNESS(permutations) { int n = symx::choose("n", 0, 3); Eigen::PermutationMatrix<Eigen::Dynamic> p(n), q; Eigen::Transpositions<Eigen::Dynamic> t(n), u; for (int i = 0; i < n; i++) { p.indices()[i] = (i + symx::choose("k", 0, 2)) % n; t.indices()[i] = symx::choose(nm("t", i).c_str(), i, n - 1); } trip(p, q); trip(t, u); symx::check(q.indices() == p.indices(), "permutation"); symx::check(u.indices() == t.indices(), "transpositions"); }
template <class S> static void sparse() {
  int r = symx::choose("r", 0, 3), c = symx::choose("c", 0, 3), pat = symx::choose("pattern", 0, 3); S a(r, c), b; Mat d = Mat::Zero(r, c); std::vector<Eigen::Triplet<double>> t; for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) if (pat == 1 ? (i + 2 * j) % 3 == 0 : pat == 2 ? i <= j : pat == 3) { d(i, j) = rl(nm("a", i, j), -5, 5); t.emplace_back(i, j, d(i, j)); } a.setFromTriplets(t.begin(), t.end());
  trip(a, b); symx::check(b.rows() == r && b.cols() == c, "sparse size"); symx::check(b.nonZeros() == a.nonZeros(), "stored entries"); if (b.rows() == r && b.cols() == c) same(Mat(b), d, "sparse entries");
}
HARNESS(sparse_by_column) { sparse<Eigen::SparseMatrix<double>>(); }
HARNESS(sparse_by_row) { sparse<Eigen::SparseMatrix<double, Eigen::RowMajor>>(); }
// ---- parameters ----
HARNESS(parameters) {
  double v = rl("v", -3, 3), p = rl("p", -3, 3), q = rl("q", 0.1, 3); ParameterStore a, b; int k = symx::choose("kind", 0, 8); PriorContainer c; if (k == 1) c = PriorContainer(FixedPrior()); else if (k == 2) c = PriorContainer(PositivePrior()); else if (k == 3) c = PriorContainer(NonNegativePrior()); else if (k == 4) c = PriorContainer(UniformPrior(p, p + q)); else if (k == 5) c = PriorContainer(LogScaleUniformPrior(q, q + 2.)); else if (k == 6) c = PriorContainer(GaussianPrior(p, q)); else if (k == 7) c = PriorContainer(PositiveGaussianPrior(p, q)); else if (k == 8) c = PriorContainer(LogNormalPrior(p, q));
  a["x"] = Parameter(v, c); if (symx::choose("two", 0, 1)) a["y"] = Parameter(2.); b["stale"] = Parameter(1.); trip(a, b); symx::check(b.size() == a.size() && b.count("x"), "names"); eq(b["x"].value, v, "value"); symx::check(b["x"].prior == c && b["x"] == a["x"], "prior and its parameters"); eq(b["x"].prior.lower_bound() > -1e300 ? b["x"].prior.lower_bound() : 0., c.lower_bound() > -1e300 ? c.lower_bound() : 0., "bounds"); symx::check(b["x"].is_fixed() == (k == 1), "fixed");
}
// ---- distributions and datasets ----
HARNESS(distributions) {
  int n = symx::choose("n", 0, 3); Vec m = vec("m", n), v = vec("v", n, 0, 4); MarginalDistribution a(m, v), b; a.metadata["k"] = "v"; trip(a, b); same(b.mean, m, "marginal mean"); same(b.covariance.diagonal(), v, "marginal variance"); symx::check(b.metadata == a.metadata, "metadata"); symx::check(a == b, "equal marginals");
  JointDistribution j(m, smat("c", n, n)), k; j.metadata["a"] = "b"; trip(j, k); same(k.mean, m, "joint mean"); same(k.covariance, j.covariance, "joint covariance"); symx::check(k.metadata == j.metadata, "joint metadata"); symx::check(j == k, "equal joints");
}
HARNESS(datasets) { int n = symx::choose("n", 0, 3); RegressionDataset<Pt> a(pts(2, n), MarginalDistribution(vec("y", n), vec("v", n, 0, 2))), b(pts(0, 1), Vec(Vec::Ones(1))); a.metadata["x"] = "1"; trip(a, b); symx::check(b.features == a.features && b.metadata == a.metadata, "features and metadata"); same(b.targets.mean, a.targets.mean, "targets"); same(b.targets.covariance.diagonal(), a.targets.covariance.diagonal(), "target variances"); symx::check(a == b, "equal datasets"); }
HARNESS(combinations) { int n = symx::choose("n", 1, 3); LinearCombination<Pt> a(pts(0, n), vec("c", n)), b; trip(a, b); symx::check(b.values == a.values, "values"); same(b.coefficients, a.coefficients, "coefficients"); }
struct A { double x = 0; bool operator==(const A &o) const { return x == o.x; } template <class Ar> void serialize(Ar &ar, const std::uint32_t) { ar(x); } };
struct B { int i = 0; bool operator==(const B &o) const { return i == o.i; } template <class Ar> void serialize(Ar &ar, const std::uint32_t) { ar(i); } };
HARNESS(variants) {
  using V = variant<A, B, double>; std::vector<V> a, b; int n = symx::choose("n", 0, 3); for (int i = 0; i < n; i++) { int k = symx::choose(nm("k", i).c_str(), 0, 2); double x = rl(nm("x", i), -2, 2); if (k == 0) { A q; q.x = x; a.push_back(q); } else if (k == 1) { B q; q.i = symx::integer(nm("i", i).c_str(), -5, 5); a.push_back(q); } else a.push_back(x); } trip(a, b); symx::check(a.size() == b.size(), "number of variants"); for (size_t i = 0; i < b.size(); i++) { symx::check(a[i].which() == b[i].which(), "alternative"); symx::check(a[i] == b[i], "held value"); }
}
struct C { int i = 0; bool operator==(const C &o) const { return i == o.i; } template <class Ar> void serialize(Ar &ar, const std::uint32_t) { ar(i); } };
HARNESS(variant_out_of_range) { using W = variant<A, B, C>; using V = variant<A, B>; int k = symx::choose("k", 0, 2); W a; if (k == 0) a = A{}; else if (k == 1) a = B{}; else a = C{}; V b; symx::check(true, "reached"); if (k == 2) symx_allow_abort_(1); Bytes s; put<Bin::O>(s, a); get<Bin::I>(s, b); symx::check(k < 2 && b.which() == k, "an alternative that does not exist is refused"); }
// ---- factorisations and representations ----
static Mat spd(int n) { Mat m = smat("s", n, n); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) m(j, i) = m(i, j); for (int i = 0; i < n; i++) m(i, i) = rl(nm("d", i), 1, 4); assume_pd(m); return m; }
HARNESS(factorisations) {
  int n = symx::choose("n", 1, 2); Mat S = spd(n); Eigen::SerializableLDLT a(S), b(Mat(Mat::Identity(n, n) * 7)); trip(a, b); symx::check(a == b, "equal factorisations"); Vec r = vec("r", n); Vec x = b.solve(r), y = a.solve(r); same(x, y, "same solutions"); eq(b.log_determinant(), a.log_determinant(), "same determinant"); same(b.reconstructedMatrix(), S, "same matrix"); symx::check(b.info() == Eigen::Success, "status"); eq(b.l1_norm(), a.l1_norm(), "norm");
}
HARNESS(factorisation_empty) { Eigen::SerializableLDLT a, b(Mat(Mat::Identity(1, 1))); trip(a, b); symx::check(!b.is_initialized() && a == b, "an empty factorisation stays empty"); Eigen::SerializableLDLT c(Mat(Mat::Identity(1, 1))), d(Mat(2 * Mat::Identity(1, 1))), e; symx::check(!(a == c) && !(c == a), "an empty factorisation is not another one"); symx::check(c == c && !(c == d), "factorisations of different matrices differ"); trip(c, e); symx::check(e == c && !(e == d) && e.is_initialized(), "which holds after loading"); }
HARNESS(block_symmetric) {
  num_kernel(3); auto f = pts(0, 3); Mat S = table(f, f); S(0, 0) = rl("d", 4, 9); Mat A_ = S.topLeftCorner(2, 2), B_ = S.topRightCorner(2, 1), C_ = S.bottomRightCorner(1, 1); BlockSymmetric<Eigen::SerializableLDLT> a(A_.ldlt(), B_, C_), b; trip(a, b); symx::check(a == b, "equal block factorisations"); Vec r = vec("r", 3); Vec x = b.solve(r), y = a.solve(r); same(x, y, "same block solutions");
}
HARNESS(representations) {
  int n = 2; Mat S = spd(n); Vec r = vec("r", n); DirectInverse a(S), b; trip(a, b); symx::check(a == b, "equal inverses"); same(b.solve(r), a.solve(r), "same solution of the inverse"); Mat I(2, 2); I << 3, 1, 1, 2; ExplainedCovariance e(S, I), g; trip(e, g); symx::check(e == g, "equal explained covariances"); same(g.solve(r), e.solve(r), "same solution of the explained covariance");
}
// ---- fits and models ----
static void kernel(int n) { zero_tables(); num_kernel(n); for (int i = 0; i < n; i++) { W[i] = 0.25; M[i] = 0.5 * i; } }
HARNESS(gp_fit) {
  int n = symx::choose("n", 1, 3); kernel(5); auto m = table_gp(); auto fm = m.fit(RegressionDataset<Pt>(pts(0, n), MarginalDistribution(vec("y", n), vec("v", n, 0, 2)))); auto other = m.fit(RegressionDataset<Pt>(pts(3, 1), Vec(Vec::Ones(1)))); trip(fm, other); symx::check(fm == other, "equal fits"); auto p = fm.predict(pts(3, 2)).joint(), q = other.predict(pts(3, 2)).joint(); same(q.mean, p.mean, "same means"); same(q.covariance, p.covariance, "same covariances");
}
HARNESS(gp_model) {
  using Cov = decltype(Constant(1.) + IndependentNoise<double>(1.)); double s = rl("s", 0.5, 2), t = rl("t", 0.5, 2); auto a = gp_from_covariance(Constant(s) + IndependentNoise<double>(t), "first"), b = gp_from_covariance(Constant(9.) + IndependentNoise<double>(9.), "second"); a.insights["i"] = "n"; b.insights["i"] = "old"; b.insights["z"] = "old"; trip(a, b); symx::check(b.get_name() == "first", "name"); symx::check(b.insights == a.insights, "insights"); auto p = a.get_params(), q = b.get_params(); symx::check(p.size() == q.size(), "parameters"); for (auto &kv : p) { eq(q.at(kv.first).value, kv.second.value, "parameter values"); symx::check(q.at(kv.first) == kv.second, "parameters with priors"); } symx::check(a == b, "equal models"); std::vector<double> x = {0., 1.}; same(b.prior(x).covariance, a.prior(x).covariance, "same prior"); (void)sizeof(Cov);
}
struct Fixed { std::string get_name() const { return "fixed"; } template <class CovF, class F> std::vector<Pt> operator()(const CovF &, const std::vector<F> &) const { return pts(4, 2); } };
struct Group { int operator()(const Pt &p) const { return p.id / 2; } };
HARNESS(sparse_fit) {
  kernel(8); auto m = sparse_gp_from_covariance_and_mean(TableCov() + measurement_only(TableNoise()), TableMean(), Group(), Fixed(), "sparse"); int n = symx::choose("n", 2, 3); auto fm = m.fit(RegressionDataset<Pt>(pts(0, n), vec("y", n))), other = m.fit(RegressionDataset<Pt>(pts(6, 2), Vec(Vec::Ones(2)))); auto rank = fm.get_fit().numerical_rank; trip(fm, other); symx::check(fm.get_fit().numerical_rank == rank, "saving leaves the fit alone"); symx::check(fm == other, "equal sparse fits"); auto p = fm.predict(pts(6, 2)).joint(), q = other.predict(pts(6, 2)).joint(); same(q.mean, p.mean, "same sparse means"); same(q.covariance, p.covariance, "same sparse covariances"); symx::check(other.get_fit().numerical_rank == fm.get_fit().numerical_rank, "rank");
}
HARNESS(least_squares) { LinearRegression m; Vec y = vec("y", 3); auto fm = m.fit(RegressionDataset<double>({0., 1., 3.}, y)), other = m.fit(RegressionDataset<double>({0., 1.}, Vec(Vec::Ones(2)))); trip(fm, other); symx::check(fm == other, "equal regressions"); std::vector<double> x = {rl("x", -2, 2)}; same(other.predict(x).mean(), fm.predict(x).mean(), "same predictions"); }
HARNESS(ransac_output) {
  RansacOutput<int> a, b; int n = symx::choose("n", 0, 2); a.return_code = n ? RANSAC_RETURN_CODE_SUCCESS : RANSAC_RETURN_CODE_NO_CONSENSUS; for (int i = 0; i < n; i++) { RansacIteration<int> it; it.candidates = {i, 3}; it.consensus_metric_value = rl(nm("c", i), -3, 3); it.inliers[i] = rl(nm("in", i), -3, 3); it.outliers[5] = rl(nm("out", i), -3, 3); if (i == 1) it.outliers.clear(); a.iterations.push_back(it); if (i == 0) a.best = it; } b.iterations.resize(1); trip(a, b); symx::check(b.return_code == a.return_code && b.iterations.size() == a.iterations.size(), "code and iterations"); symx::check(a == b, "equal outputs"); for (int i = 0; i < n; i++) { eq(b.iterations[i].consensus_metric_value, a.iterations[i].consensus_metric_value, "consensus"); symx::check(b.iterations[i].candidates == a.iterations[i].candidates, "candidates"); eq(b.iterations[i].inliers.at(i), a.iterations[i].inliers.at(i), "inliers"); symx::check(b.iterations[i].outliers.size() == a.iterations[i].outliers.size(), "outliers"); }
}
HARNESS(thread_pools) { int n = symx::choose("n", 0, 4); std::shared_ptr<ThreadPool> a, b = std::make_shared<ThreadPool>(3); if (n) a = std::make_shared<ThreadPool>(n); trip(a, b); symx::check(get_thread_count(b) == get_thread_count(a), "number of workers"); }
// ---- malformed data ----
struct Claim { Eigen::Index rows, cols; Vec content; int cut = 0; template <class Ar> void save(Ar &ar) const { ar(rows); ar(cols); std::string p = albatross::zstd::compress(content.data(), content.size()); if (cut) { std::string q; q.resize(p.size() - cut); memcpy(&q[0], p.data(), q.size()); ar(q); } else ar(p); } template <class Ar> void load(Ar &) {} };
HARNESS(matrix_of_another_size) {
  int have = symx::choose("have", 0, 4), r = symx::choose("r", 0, 2), c = symx::choose("c", 0, 2), cut = symx::choose("cut", 0, 9); Claim k{r, c, vec("v", have), cut}; symx::check(true, "reached"); bool ok = have == r * c && cut == 0, empty = r * c == 0; if (!ok && !empty) symx_allow_abort_(1); Bytes s; { std::ostream os(&s); Bin::O a(os); std::uint32_t version = 0; a(version); k.save(a); } Mat m = Mat::Ones(1, 1); bool threw = false; try { get<Bin::I>(s, m); } catch (const std::exception &) { threw = true; } if (ok) { symx::check(!threw && m.rows() == r && m.cols() == c, "well formed"); for (int i = 0; i < have && !threw; i++) eq(m.data()[i], k.content[i], "content in column order"); } else if (!empty) symx::check(threw, "content of another size or cut short is refused"); else symx::check(threw || m.size() == 0, "empty");
}
HARNESS(triangle_of_another_size) { int n = symx::choose("n", 0, 7); bool ok = n == 0 || n == 1 || n == 3 || n == 6; symx::check(true, "reached"); if (!ok) symx_allow_abort_(1); Vec v = vec("v", n); Bytes s; { std::ostream os(&s); Bin::O a(os); a(v); } Mat m; { std::istream is(&s); Bin::I a(is); cereal::load_lower_triangle(a, m); } symx::check(ok, "a length that is no triangle's is refused"); symx::check(m.rows() == m.cols() && m.rows() * (m.rows() + 1) / 2 == n, "size from the length"); int k = 0; for (int i = 0; i < m.rows(); i++) for (int j = 0; j <= i; j++) eq(m(i, j), v[k++], "rows of the triangle"); }
HARNESS(cut_short) { int what = symx::choose("what", 0, 2), cut = symx::choose("cut", 1, 12); Bytes s; RegressionDataset<Pt> d(pts(0, 2), Vec(Vec::Ones(2))), e; JointDistribution j(Vec(Vec::Ones(2)), Mat(Mat::Identity(2, 2))), k; ParameterStore p, q; p["a"] = Parameter(1., PriorContainer(GaussianPrior(0., 1.))); if (what == 0) put<Bin::O>(s, d); else if (what == 1) put<Bin::O>(s, j); else put<Bin::O>(s, p); s.data.resize(s.data.size() - cut); bool threw = false; try { if (what == 0) get<Bin::I>(s, e); else if (what == 1) get<Bin::I>(s, k); else get<Bin::I>(s, q); } catch (const std::exception &) { threw = true; } symx::check(threw, "data cut short is refused"); }
HARNESS(large) { // bigger objects
  int w = symx::choose("what", 0, 6); if (w == 0) { Mat a(9, 13), b; for (int i = 0; i < 9; i++) for (int j = 0; j < 13; j++) a(i, j) = (i + j) % 4 ? 0.25 * i - j : rl(nm("a", i, j), -5, 5); trip(a, b); same(b, a, "large matrix"); }
  else if (w == 1) { int n = 40; Vec a = big_vec("a", n, 9), b; trip(a, b); same(b, a, "large vector"); }
  else if (w == 2) { Eigen::SparseMatrix<double> a(12, 10), b; std::vector<Eigen::Triplet<double>> t; Mat d = Mat::Zero(12, 10); for (int i = 0; i < 12; i++) for (int j = 0; j < 10; j++) if ((i * 5 + j * 3) % 7 == 0 && j != 4) { d(i, j) = rl(nm("a", i, j), -5, 5); t.emplace_back(i, j, d(i, j)); } a.setFromTriplets(t.begin(), t.end()); trip(a, b); symx::check(b.nonZeros() == a.nonZeros(), "stored entries of a large matrix"); same(Mat(b), d, "large sparse matrix"); }
  else if (w == 3) { int n = 12; big_kernel(n); Eigen::SerializableLDLT a(table(pts(0, n), pts(0, n))), b; trip(a, b); symx::check(a == b, "large factorisation"); Vec r = big_vec("r", n, 4); same(b.solve(r), a.solve(r), "same solutions of a large factorisation"); eq(b.log_determinant(), a.log_determinant(), "same determinant of a large factorisation"); }
  else if (w == 4) { int n = 12; big_tables(n + 3); auto m = table_gp(); auto fm = m.fit(RegressionDataset<Pt>(pts(0, n), MarginalDistribution(big_vec("y", n, 4), big_noise(n)))), other = m.fit(RegressionDataset<Pt>(pts(3, 1), Vec(Vec::Ones(1)))); trip(fm, other); symx::check(fm == other, "equal large fits"); auto p = fm.predict(pts(n, 3)).joint(), q = other.predict(pts(n, 3)).joint(); same(q.mean, p.mean, "same means of a large fit"); same(q.covariance, p.covariance, "same covariances of a large fit"); }
  else if (w == 5) { int n = 25; RegressionDataset<Pt> a(pts(2, n), MarginalDistribution(big_vec("y", n, 5), big_noise(n))), b; for (int i = 0; i < 12; i++) a.metadata[nm("key", i)] = std::string(3 * i, 'x'); trip(a, b); symx::check(a == b && b.metadata == a.metadata, "equal large datasets"); same(b.targets.mean, a.targets.mean, "targets of a large dataset"); }
  else { ParameterStore a, b; for (int i = 0; i < 14; i++) a[nm("parameter", i)] = Parameter(rl(nm("v", i), -5, 5), i % 3 == 0 ? PriorContainer(FixedPrior()) : i % 3 == 1 ? PriorContainer(UniformPrior(-6., 6. + i)) : PriorContainer(GaussianPrior(i, 1.))); trip(a, b); symx::check(a == b, "many parameters"); for (auto &kv : a) { eq(b.at(kv.first).value, kv.second.value, "values of many parameters"); symx::check(b.at(kv.first).prior == kv.second.prior, "priors of many parameters"); } }
}
HARNESS(fit_models) { // the model is stored with its fit
  double s = rl("s", 0.5, 2), t = rl("t", 0.5, 2), l = rl("x", -2, 2); auto mk = [](double a, double b, const char *name) { return gp_from_covariance(Constant(a) + IndependentNoise<double>(b), name); }; auto m = mk(s, t, "first"), o = mk(9., 9., "second"); m.insights["by"] = "me"; RegressionDataset<double> d({0., 1.}, vec("y", 2)), e({5.}, Vec(Vec::Ones(1))); auto a = m.fit(d), b = o.fit(e); auto before = b; trip(a, b); symx::check(a == b && !(b == before), "equal models and fits"); symx::check(b.get_model() == a.get_model() && b.get_model().get_name() == "first" && b.get_model().insights == a.get_model().insights, "the model of the fit"); std::vector<double> x = {l, 1.}; auto p = a.predict(x).joint(), q = b.predict(x).joint(); same(q.mean, p.mean, "same predictions of the loaded model"); same(q.covariance, p.covariance, "same covariances of the loaded model");
  LinearRegression r; auto f = r.fit(RegressionDataset<double>({0., 1., 3.}, vec("z", 3))); f.get_model().insights["k"] = "v"; auto g = r.fit(RegressionDataset<double>({0., 1.}, Vec(Vec::Ones(2)))); trip(f, g); symx::check(g.get_model().insights == f.get_model().insights && g == f, "the regression of the fit");
}
HARNESS(different) { // what differs is not equal, before and after loading
  int k = symx::choose("k", 0, 5); double x = rl("x", -2, 2), y = rl("y", -2, 2); bool diff = x != y; auto both = [&](const auto &a, const auto &b, auto c) { symx::check((a == b) == !diff, "equal when the values are"); trip(a, c); symx::check(c == a && (c == b) == !diff, "and so after loading"); };
  Vec v(2), w(2); v << 1, x; w << 1, y; switch (k) { case 0: both(MarginalDistribution(v), MarginalDistribution(w), MarginalDistribution()); break; case 1: { Mat A = Mat::Identity(2, 2), B = A; A(0, 1) = A(1, 0) = x; B(0, 1) = B(1, 0) = y; both(JointDistribution(v * 0, A), JointDistribution(v * 0, B), JointDistribution()); break; } case 2: { A p, q, r; q.x = x; r.x = y; both(RegressionDataset<A>({p, q}, Vec(Vec::Ones(2))), RegressionDataset<A>({p, r}, Vec(Vec::Ones(2))), RegressionDataset<A>({p}, Vec(Vec::Ones(1)))); break; } case 3: { RansacIteration<int> a, b; a.inliers[3] = x; b.inliers[3] = y; RansacOutput<int> o, p, q; o.iterations = {a}; p.iterations = {b}; both(o, p, q); break; } case 4: { RansacOutput<int> o, p, q; o.best.consensus_metric_value = x; p.best.consensus_metric_value = y; both(o, p, q); break; } case 5: { LinearCombination<double> a({1., 2.}, v), b({1., 2.}, w), c; both(a, b, c); break; } }
}
struct RIn { template <class F, class M> double operator()(const std::vector<Pt> &, const F &, const M &) const { return 0; } };
HARNESS(ransac_fit) { // what a RANSAC model fitted, with or without a consensus
  kernel(5); auto m = table_gp(); using FM = decltype(m.fit(std::declval<RegressionDataset<Pt>>())); using RF = Fit<RansacFit<decltype(m), int, Pt, int>>; RansacOutput<int> o; o.return_code = RANSAC_RETURN_CODE_SUCCESS; o.best.candidates = {4}; o.best.consensus_metric_value = rl("c", -3, 3); FM f = m.fit(RegressionDataset<Pt>(pts(0, 2), vec("y", 2))), g = m.fit(RegressionDataset<Pt>(pts(2, 1), Vec(Vec::Ones(1)))); bool with = symx::choose("with", 0, 1), old = symx::choose("old", 0, 1); RF a = with ? RF(f, o) : RF(o), b = old ? RF(g, RansacOutput<int>()) : RF(RansacOutput<int>()), other = with ? RF(o) : RF(f, o), third = RF(g, o); symx::check(!(a == other) && !(a == third), "different fits differ"); trip(a, b); symx::check(a == b && !(b == other) && !(b == third), "equal RANSAC fits"); symx::check(b.has_fit_model() == with, "whether there is a model"); if (with && b.has_fit_model()) { auto p = f.predict(pts(3, 2)).joint(), q = b.get_fit_model_or_assert().predict(pts(3, 2)).joint(); same(q.mean, p.mean, "same means after RANSAC"); same(q.covariance, p.covariance, "same covariances after RANSAC"); }
}
