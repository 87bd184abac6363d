// @bounds: marginal and joint distributions of 0 to 3 entries with every mean, variance and covariance symbolic; transforming matrices of up to 3x2 (dense and sparse) with symbolic entries; every index list of up to 3 entries (repeats and any order); 12 entries, three lists of indices
// @assume: variances positive and joint covariances positive definite (only where a square root is taken)
#include <albatross/Core>
#include <albatross/Indexing>
#include <albatross/GP>
#include <Eigen/Sparse>
#include "common.hpp"
using namespace albatross; using namespace hx;
static MarginalDistribution marg(const char *t, int n, double lo = 0) { Vec m = vec((std::string("m") + t).c_str(), n), v = vec((std::string("v") + t).c_str(), n, lo, 4); return MarginalDistribution(m, v); }
static Mat symm(const char *t, int n) { Mat c(n, n); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) c(i, j) = c(j, i) = i == j ? rl(nm(t, i, j), 0.1, 4) : rl(nm(t, i, j), -2, 2); return c; }
static JointDistribution joint(const char *t, int n) { return JointDistribution(vec((std::string("m") + t).c_str(), n), symm((std::string("c") + t).c_str(), n)); }
static void is(const MarginalDistribution &d, const Vec &m, const Vec &v, const char *l) { symx::check((int)d.size() == m.size() && d.covariance.diagonal().size() == v.size(), l); check_vec(d.mean, m, l); check_vec(d.covariance.diagonal(), v, l); }
static void is(const JointDistribution &d, const Vec &m, const Mat &c, const char *l) { symx::check((int)d.size() == m.size() && d.covariance.rows() == c.rows() && d.covariance.cols() == c.cols(), l); check_vec(d.mean, m, l); for (int i = 0; i < c.rows(); i++) for (int j = 0; j < c.cols(); j++) symx::check_eq(d.covariance(i, j), c(i, j), l); }
static Mat diag(const Vec &v) { Mat m = Mat::Zero(v.size(), v.size()); for (int i = 0; i < v.size(); i++) m(i, i) = v[i]; return m; }
HARNESS(arithmetic) {
  int n = symx::choose("n", 0, 3); auto a = marg("a", n), b = marg("b", n); auto p = joint("p", n), q = joint("q", n); double s = rl("s", -3, 3); Vec va = a.covariance.diagonal(), vb = b.covariance.diagonal(); Vec sum(n), dif(n), vs(n), sc(n), sv(n), pj(n), mj(n), pq(n), dq(n), ps(n); Mat cpa(n, n), cpq(n, n), csc(n, n);
  for (int i = 0; i < n; i++) { sum[i] = a.mean[i] + b.mean[i]; dif[i] = a.mean[i] - b.mean[i]; vs[i] = va[i] + vb[i]; sc[i] = s * a.mean[i]; sv[i] = s * s * va[i]; pj[i] = p.mean[i] + a.mean[i]; mj[i] = p.mean[i] - a.mean[i]; pq[i] = p.mean[i] + q.mean[i]; dq[i] = p.mean[i] - q.mean[i]; ps[i] = s * p.mean[i]; for (int j = 0; j < n; j++) { cpa(i, j) = p.covariance(i, j) + (i == j ? va[i] : 0.); cpq(i, j) = p.covariance(i, j) + q.covariance(i, j); csc(i, j) = s * s * p.covariance(i, j); } }
  is(a + b, sum, vs, "sum of independent marginals"); is(a - b, dif, vs, "difference of independent marginals"); is(a * s, sc, sv, "scaled marginal"); is(p + a, pj, cpa, "joint plus marginal"); is(p - a, mj, cpa, "joint minus marginal"); is(p + q, pq, cpq, "sum of joints"); is(p - q, dq, cpq, "difference of joints"); is(p * s, ps, csc, "scaled joint"); is(p.marginal(), p.mean, Vec(p.covariance.diagonal()), "marginal of a joint");
  for (int i = 0; i < n; i++) { auto e = p[i]; is(e, Vec::Constant(1, p.mean[i]), Vec::Constant(1, p.covariance(i, i)), "one entry of a joint"); auto f = a[i]; is(f, Vec::Constant(1, a.mean[i]), Vec::Constant(1, va[i]), "one entry of a marginal"); symx::check(p.get_diagonal(i) == p.covariance(i, i) && a.get_diagonal(i) == va[i], "diagonal entries"); }
}
HARNESS(constructors) { int n = symx::choose("n", 0, 3); Vec m = vec("m", n), v = vec("v", n, 0, 4); MarginalDistribution z(m); is(z, m, Vec::Zero(n), "deterministic marginal"); is(MarginalDistribution(m, v), m, v, "from variances"); is(MarginalDistribution(m, DiagonalMatrixXd(v)), m, v, "from a diagonal"); is(MarginalDistribution(m, v.asDiagonal()), m, v, "from a diagonal expression"); double x = rl("x", -3, 3), y = rl("y", 0, 3); is(MarginalDistribution(x, y), Vec::Constant(1, x), Vec::Constant(1, y), "scalar marginal"); is(JointDistribution(x, y), Vec::Constant(1, x), Mat::Constant(1, 1, y), "scalar joint"); symx::check(MarginalDistribution().size() == 0 && JointDistribution().size() == 0, "empty"); }
static Mat lin(const Mat &A, const Mat &C) { return mul(mul(A, C), A.transpose()); }
static Vec apply_to(const Mat &A, const Vec &m) { Vec r = Vec::Zero(A.rows()); for (int i = 0; i < A.rows(); i++) for (int j = 0; j < A.cols(); j++) r[i] += A(i, j) * m[j]; return r; }
static Mat matrix(int r, int c) { Mat A(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) A(i, j) = rl(nm("A", i, j), -2, 2); return A; }
HARNESS(transform_marginal) {
  int r = symx::choose("rows", 0, 3), c = symx::choose("cols", 1, 2); Mat A = matrix(r, c); auto a = marg("a", c); Mat C = lin(A, diag(a.covariance.diagonal())); Vec m = apply_to(A, a.mean); JointDistribution j = A * a; is(j, m, C, "linear map of a marginal"); is((A * a).marginal(), m, Vec(C.diagonal()), "marginal of a linear map"); MarginalDistribution mm = A * a; is(mm, m, Vec(C.diagonal()), "converted to a marginal");
  Eigen::SparseMatrix<double> S(r, c); std::vector<Eigen::Triplet<double>> t; Mat D = Mat::Zero(r, c); for (int i = 0; i < r; i++) for (int k = 0; k < c; k++) if ((i + k) % 2 == 0) { t.emplace_back(i, k, A(i, k)); D(i, k) = A(i, k); } S.setFromTriplets(t.begin(), t.end()); C = lin(D, diag(a.covariance.diagonal())); m = apply_to(D, a.mean); is((S * a).joint(), m, C, "sparse linear map"); is((S * a).marginal(), m, Vec(C.diagonal()), "marginal of a sparse linear map");
}
HARNESS(transform_joint) {
  int r = symx::choose("rows", 1, 2), c = symx::choose("cols", 1, 2); Mat A = matrix(r, c); JointDistribution p = joint("p", c); assume_pd(p.covariance, 0.1); Mat C = lin(A, p.covariance); Vec m = apply_to(A, p.mean); is((A * p).joint(), m, C, "linear map of a joint"); is((A * p).marginal(), m, Vec(C.diagonal()), "marginal of a linear map of a joint"); Eigen::SparseMatrix<double> S(r, c); std::vector<Eigen::Triplet<double>> t; for (int i = 0; i < r; i++) for (int k = 0; k < c; k++) t.emplace_back(i, k, A(i, k)); S.setFromTriplets(t.begin(), t.end()); is((S * p).joint(), m, C, "sparse linear map of a joint"); is((S * p).marginal(), m, Vec(C.diagonal()), "marginal of a sparse linear map of a joint");
}
HARNESS(transform_wide) { // three correlated entries with a numeric covariance
  num_kernel(3); Mat C(3, 3); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) C(i, j) = K[i][j]; int r = symx::choose("rows", 1, 2); Mat A = matrix(r, 3); JointDistribution p(vec("m", 3), C); is((A * p).joint(), apply_to(A, p.mean), lin(A, C), "linear map of three entries"); is((A * p).marginal(), apply_to(A, p.mean), Vec(lin(A, C).diagonal()), "marginal of a linear map of three entries"); }
template <class I> static std::vector<I> indices(int n, int lo, int hi, bool distinct = false) { int k = symx::choose("k", lo, hi); std::vector<I> r; for (int i = 0; i < k; i++) { int v = symx::choose(nm("i", i).c_str(), 0, n - 1); if (distinct) for (I x : r) symx::assume(x != (I)v); r.push_back((I)v); } return r; }
HARNESS(subsets) {
  int n = symx::choose("n", 1, 3); auto ix = indices<std::size_t>(n, 0, 3); int k = ix.size(); auto a = marg("a", n); auto p = joint("p", n); Vec m(k), v(k), pm(k); Mat c(k, k); for (int i = 0; i < k; i++) { m[i] = a.mean[ix[i]]; v[i] = a.covariance.diagonal()[ix[i]]; pm[i] = p.mean[ix[i]]; for (int j = 0; j < k; j++) c(i, j) = p.covariance(ix[i], ix[j]); }
  is(a.subset(ix), m, v, "entries named, in order"); is(subset(a, ix), m, v, "free function"); is(p.subset(ix), pm, c, "joint entries named"); is(subset(p, ix), pm, c, "joint, free function"); std::vector<int> ii(ix.begin(), ix.end()); is(a.subset(ii), m, v, "signed indices"); is(p.subset(ii), pm, c, "joint, signed indices"); is(p.subset(ix).marginal(), pm, Vec(c.diagonal()), "subset then marginal"); is(p.marginal().subset(ix), pm, Vec(c.diagonal()), "marginal then subset"); DiagonalMatrixXd d = symmetric_subset(a.covariance, ix); check_vec(d.diagonal(), v, "diagonal matrix");
}
HARNESS(matrix_subsets) {
  int r = symx::choose("rows", 1, 3), c = symx::choose("cols", 1, 2); Mat A = matrix(r, c); auto ri = indices<std::size_t>(r, 0, 2); std::vector<std::size_t> ci; for (int i = 0; i < symx::choose("cols taken", 0, 2); i++) ci.push_back(symx::choose(nm("c", i).c_str(), 0, c - 1)); Mat R = subset_rows(A, ri), C = subset_cols(A, ci), B = subset(A, ri, ci); symx::check(R.rows() == (int)ri.size() && R.cols() == c && C.rows() == r && C.cols() == (int)ci.size() && B.rows() == (int)ri.size() && B.cols() == (int)ci.size(), "sizes");
  for (size_t i = 0; i < ri.size(); i++) for (int j = 0; j < c; j++) symx::check(R(i, j) == A(ri[i], j), "rows named, in order"); for (int i = 0; i < r; i++) for (size_t j = 0; j < ci.size(); j++) symx::check(C(i, j) == A(i, ci[j]), "columns named, in order"); for (size_t i = 0; i < ri.size(); i++) for (size_t j = 0; j < ci.size(); j++) symx::check(B(i, j) == A(ri[i], ci[j]), "block named, in order");
}
HARNESS(set_subsets) {
  int n = symx::choose("n", 1, 3); auto ix = indices<std::size_t>(n, 0, n, true); int k = ix.size(), how = symx::choose("how", 0, 1); auto a = marg("a", n), from = marg("f", k), to = a; if (how) set_subset(from, ix, &to); else to.set_subset(from, ix); Vec m = a.mean, v = a.covariance.diagonal(); for (int i = 0; i < k; i++) { m[ix[i]] = from.mean[i]; v[ix[i]] = from.covariance.diagonal()[i]; } is(to, m, v, "exactly the named entries are written"); is(to.subset(ix), from.mean, Vec(from.covariance.diagonal()), "written entries read back"); Vec x = a.mean; set_subset(from.mean, ix, &x); check_vec(x, m, "vector"); DiagonalMatrixXd d = a.covariance; set_subset(from.covariance, ix, &d); check_vec(d.diagonal(), v, "diagonal matrix");
}
HARNESS(complements) { int n = symx::choose("n", 0, 4), mask = symx::choose("mask", 0, (1 << n) - 1), rev = symx::choose("reversed", 0, 1); std::vector<std::size_t> in, out; for (int i = 0; i < n; i++) ((mask >> i) & 1 ? in : out).push_back(i); if (rev) std::reverse(in.begin(), in.end()); symx::check(indices_complement(in, n) == out, "exactly the other indices"); }
HARNESS(equality) {
  int n = symx::choose("n", 0, 2), k = symx::choose("k", 0, 2); auto a = marg("a", n), b = marg("b", k); bool same = n == k; for (int i = 0; i < n && i < k; i++) same = same && a.mean[i] == b.mean[i] && a.covariance.diagonal()[i] == b.covariance.diagonal()[i]; if (n == k) symx::check((a == b) == same, "marginals equal exactly when all entries agree"); symx::check(a == a, "equal to itself"); auto p = joint("p", n), q = joint("q", k); if (n == k) { bool js = true; for (int i = 0; i < n; i++) { js = js && p.mean[i] == q.mean[i]; for (int j = 0; j < n; j++) js = js && p.covariance(i, j) == q.covariance(i, j); } symx::check((p == q) == js, "joints equal exactly when all entries agree"); } symx::check(p == p, "joint equal to itself");
}
HARNESS(concatenation) {
  int n = symx::choose("n", 0, 2), k = symx::choose("k", 0, 2), l = symx::choose("l", 0, 1); auto a = marg("a", n), b = marg("b", k), c = marg("c", l); Vec m(n + k), v(n + k); m << a.mean, b.mean; v << Vec(a.covariance.diagonal()), Vec(b.covariance.diagonal()); is(concatenate_marginals(a, b), m, v, "first then second"); Vec m3(n + k + l), v3(n + k + l); m3 << m, c.mean; v3 << v, Vec(c.covariance.diagonal()); is(concatenate_marginals(std::vector<MarginalDistribution>{a, b, c}), m3, v3, "in the order given"); symx::check(concatenate_marginals(std::vector<MarginalDistribution>{}).size() == 0, "nothing to concatenate");
}
HARNESS(sizes_refused) { // a distribution whose mean and covariance differ in size is refused
  int n = symx::choose("n", 0, 2), k = symx::choose("k", 0, 2), kind = symx::choose("kind", 0, 2); symx::check(n >= 0, "reached"); if (n != k) symx_allow_abort_(1); Vec m = vec("m", n), v = vec("v", k, 0, 3); if (kind == 0) { MarginalDistribution d(m, v); symx::check(n == k, "mismatched variances are refused"); } else if (kind == 1) { MarginalDistribution d(m, DiagonalMatrixXd(v)); symx::check(n == k, "mismatched diagonals are refused"); } else { Mat c = diag(v); JointDistribution d(m, c); symx::check(n == k, "mismatched covariances are refused"); } }
HARNESS(indices_refused) { int n = symx::choose("n", 0, 2), i = symx::choose("i", -1, 3); auto a = marg("a", n); bool bad = i < 0 || i >= n; symx::check(n >= 0, "reached"); if (bad) symx_allow_abort_(1); std::vector<int> ix = {i}; auto s = a.subset(ix); symx::check(!bad, "indices outside are refused"); }
HARNESS(approximately) { double m = rl("m", 1, 2), v = rl("v", 1, 2), e = rl("e", 0, 1); MarginalDistribution a(m, v), b(m + e, v), c(m, v + e); if (e > 0.01) { symx::check(!a.approximately_equal(b), "a different mean is noticed"); symx::check(!a.approximately_equal(c), "a different variance is noticed"); symx::check(!JointDistribution(m, v).approximately_equal(JointDistribution(m, v + e)), "a different covariance is noticed"); } if (e < 1e-4) symx::check(a.approximately_equal(b) && a.approximately_equal(c), "small differences are not"); }
HARNESS(large) { // more entries
  int n = 12; big_kernel(n); Mat C = table(pts(0, n), pts(0, n)); Vec m = big_vec("m", n, 6), v = big_noise(n); v[7] = rl("v7", 0.1, 4); C(3, 9) = C(9, 3) = rl("c", -0.1, 0.1); MarginalDistribution a(m, v); JointDistribution p(m, C); int w = symx::choose("list", 0, 2); std::vector<std::size_t> ix = w == 0 ? std::vector<std::size_t>{11, 3, 9, 0, 7, 6, 1} : w == 1 ? std::vector<std::size_t>{0, 1, 2, 3, 4, 5, 6, 7, 9, 10} : std::vector<std::size_t>{5, 7, 8, 9, 10, 11}; int k = ix.size(); Vec sm(k), sv(k); Mat sc(k, k); for (int i = 0; i < k; i++) { sm[i] = m[ix[i]]; sv[i] = v[ix[i]]; for (int j = 0; j < k; j++) sc(i, j) = C(ix[i], ix[j]); }
  is(a.subset(ix), sm, sv, "entries of many"); is(p.subset(ix), sm, sc, "joint entries of many"); is(p.marginal(), m, Vec(C.diagonal()), "marginal of many"); is(a + a, Vec(m + m), Vec(v + v), "sum of many"); is(p + p, Vec(m + m), Mat(C + C), "sum of joints of many"); is(p - a, Vec(m - m), Mat(C + diag(v)), "joint minus marginal of many"); is(p * 3., Vec(3. * m), Mat(9. * C), "scaled joint of many"); is(a * -3., Vec(-3. * m), Vec(9. * v), "scaled marginal of many");
  MarginalDistribution from(vec("f", k), vec("fv", k, 0, 4)), to = a; set_subset(from, ix, &to); Vec tm = m, tv = v; for (int i = 0; i < k; i++) { tm[ix[i]] = from.mean[i]; tv[ix[i]] = from.covariance.diagonal()[i]; } is(to, tm, tv, "exactly the named entries of many"); std::vector<std::size_t> rest; for (int i = 0; i < n; i++) if (std::find(ix.begin(), ix.end(), (std::size_t)i) == ix.end()) rest.push_back(i); symx::check(indices_complement(ix, n) == rest, "complement of many");
  Mat A(5, n); for (int i = 0; i < 5; i++) for (int j = 0; j < n; j++) A(i, j) = 0.5 * ((i * 5 + j * 3) % 4) - 0.5; Mat AC = lin(A, C), AV = lin(A, diag(v)); is((A * a).joint(), apply_to(A, m), AV, "linear map of many"); is((A * a).marginal(), apply_to(A, m), Vec(AV.diagonal()), "marginal of a linear map of many"); Eigen::SparseMatrix<double> S = A.sparseView(); is((S * a).marginal(), apply_to(A, m), Vec(AV.diagonal()), "sparse linear map of many"); (void)AC;
  is(concatenate_marginals(a, from), (Vec(n + k) << m, from.mean).finished(), (Vec(n + k) << v, Vec(from.covariance.diagonal())).finished(), "concatenation of many");
}
HARNESS(large_joint_map) { int n = 9; big_kernel(n); Mat C = table(pts(0, n), pts(0, n)), A(4, n); for (int i = 0; i < 4; i++) for (int j = 0; j < n; j++) A(i, j) = 0.5 * ((i * 5 + j * 3) % 4) - 0.5; Vec m = big_vec("m", n, 4); JointDistribution p(m, C); Mat AC = lin(A, C); is((A * p).joint(), apply_to(A, m), AC, "linear map of a large joint"); is((A * p).marginal(), apply_to(A, m), Vec(AC.diagonal()), "marginal of a linear map of a large joint"); Eigen::SparseMatrix<double> S = A.sparseView(); is((S * p).marginal(), apply_to(A, m), Vec(AC.diagonal()), "marginal of a sparse linear map of a large joint"); is((S * p).joint(), apply_to(A, m), AC, "sparse linear map of a large joint"); }
HARNESS(in_place) { // accumulating operators, also of a distribution with itself
  int n = symx::choose("n", 1, 3); auto a = marg("a", n), b = marg("b", n), c = a; Vec va = a.covariance.diagonal(), vb = b.covariance.diagonal(); c = a + b; MarginalDistribution d = c - a; is(d, b.mean, Vec(va + va + vb), "variances only add"); MarginalDistribution e = a; e = e + e; is(e, Vec(a.mean * 2.), Vec(va * 2.), "assigning a sum to one of its terms"); JointDistribution p = joint("p", n), q = p; q = q - q; is(q, Vec(Vec::Zero(n)), Mat(p.covariance * 2.), "difference with itself"); is(p.subset(std::vector<int>(2, n - 1)), Vec(Vec::Constant(2, p.mean[n - 1])), Mat(Mat::Constant(2, 2, p.covariance(n - 1, n - 1))), "the same entry twice");
}
