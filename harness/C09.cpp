// @bounds: symmetric positive definite matrices up to 2x2 with every entry symbolic, 3x3 ones with symbolic diagonal (or a symbolic off diagonal entry), every pivot order the factorisation may choose, every block structure of up to 3 blocks; right hand sides up to 3x2; QR of fixed 3x2 and 4x3 matrices with symbolic right hand sides, of symbolic 2x1 ones, and of symbolic upper triangular ones with every column order; 10 rows, blocks of five sizes, with fixed entries and some symbolic right hand sides; three units of measurement
// @assume: leading principal minors are at least 0.05 where a matrix is factorised
#include <albatross/GP>
#include <albatross/CovarianceFunctions>
#include <albatross/src/linalg/qr_utils.hpp>
#include <albatross/src/utils/eigen_utils.hpp>
#include "common.hpp"
using namespace albatross; using namespace hx;
static Mat sym(const char *nme, int n, double lo = 0.5) { Mat A(n, n); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) A(i, j) = A(j, i) = i == j ? rl(nm(nme, i, j), lo, 4) : rl(nm(nme, i, j), -2, 2); assume_pd(A); return A; }
static Mat any(const char *nme, int n, int m) { Mat A(n, m); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) A(i, j) = rl(nm(nme, i, j), -2, 2); return A; }
static Mat tr(const Mat &a) { Mat r(a.cols(), a.rows()); for (int i = 0; i < a.rows(); i++) for (int j = 0; j < a.cols(); j++) r(j, i) = a(i, j); return r; }
static void ldlt_all(int n) {
  Mat A = sym("a", n), b = any("b", n, n == 3 ? 1 : 2), I = inv(A); Eigen::SerializableLDLT l(A); Mat Ib = mul(I, b); symx::check_mat(l.solve(b), Ib, "solve"); Mat s = l.sqrt_solve(b); symx::check_mat(mul(tr(s), s), mul(tr(b), Ib), "square root solve"); 
  Mat e = Mat::Identity(n, n), R = l.sqrt_product(e); symx::check_mat(mul(R, tr(R)), A, "square root product"); symx::check_mat(l.sqrt_transpose(), tr(R), "square root transpose"); Mat t = l.sqrt_transpose_solve(b); symx::check_mat(mul(tr(R), t), b, "square root transpose solve"); symx::check_mat(mul(R, s), b, "square root solve inverts the square root");
  symx::check_eq(l.log_determinant(), std::log(det(A)), "log determinant"); symx::check(l.is_positive_definite(), "positive definite"); check_vec(l.inverse_diagonal(), Vec(I.diagonal()), "inverse diagonal"); symx::check(l == l && l.rows() == n && l.cols() == n, "sizes and equality"); 
  Mat D = l.diagonal_sqrt().toDenseMatrix(), Di = l.diagonal_sqrt_inverse().toDenseMatrix(); symx::check_mat(mul(D, Di), e, "diagonal square roots are inverse"); double norm = 0; for (int j = 0; j < n; j++) { double c = 0; for (int i = 0; i < n; i++) c += std::fabs(A(i, j)); norm = c > norm ? c : norm; } if (n < 3) symx::check_eq(l.l1_norm(), norm, "norm");
}
HARNESS(ldlt_small) { ldlt_all(symx::choose("n", 1, 2)); }
// symmetric 3x3 matrices whose diagonal (hence pivot order) is symbolic, and
// ones where an off diagonal entry is symbolic too
static Mat sym3() { int k = symx::choose("k", 0, 3); Mat A(3, 3); static const double O[3][3] = {{.25, .5, -.25}, {-.75, 0, .5}, {0, 0, 0}}; const double *o = O[k < 3 ? k : 0]; double x = k == 3 ? rl("o", -1, 1) : o[0]; A << 1, x, o[1], x, 1, o[2], o[1], o[2], 1; for (int i = 0; i < 3; i++) A(i, i) = k < 3 ? rl(nm("d", i), 0.125, 4) : 2.0 - 0.5 * i; assume_pd(A); return A; }
HARNESS(ldlt_three) {
  Mat A = sym3(), I = inv(A); Mat b = any("b", 3, 1), Ib = mul(I, b); Eigen::SerializableLDLT l(A); symx::check_mat(l.solve(b), Ib, "solve"); check_vec(l.inverse_diagonal(), Vec(I.diagonal()), "inverse diagonal"); Vec d = l.vectorD(); symx::check_eq(l.log_determinant(), std::log(d[0]) + std::log(d[1]) + std::log(d[2]), "log determinant"); symx::check_eq(d[0] * d[1] * d[2], det(A), "determinant"); std::vector<std::vector<std::size_t>> bl = {{2, 0}, {1}, {0, 1, 2}, {}}; auto ib = l.inverse_blocks(bl); symx::check(ib.size() == 4 && ib[3].size() == 0, "one inverse block per group"); for (size_t k = 0; k < bl.size(); k++) for (size_t x = 0; x < bl[k].size(); x++) for (size_t y = 0; y < bl[k].size(); y++) symx::check_eq(ib[k](x, y), I(bl[k][x], bl[k][y]), "inverse block");
}
HARNESS(ldlt_three_roots) {
  // every pivot order through a diagonal that dominates in any order
  int n = 3; Mat A(3, 3); A << 1, .25, .5, .25, 1, -.25, .5, -.25, 1; for (int i = 0; i < 3; i++) A(i, i) = rl(nm("d", i), 1, 4); Mat b = any("b", 3, 1); Mat Ib = mul(inv(A), b); Eigen::SerializableLDLT l(A); Mat e = Mat::Identity(n, n), R = l.sqrt_product(e), s = l.sqrt_solve(b); symx::check_mat(mul(R, tr(R)), A, "square root product"); symx::check_mat(mul(tr(s), s), mul(tr(b), Ib), "square root solve"); symx::check_mat(l.sqrt_transpose(), tr(R), "square root transpose"); symx::check_mat(mul(tr(R), l.sqrt_transpose_solve(b)), b, "square root transpose solve"); symx::check_mat(mul(R, s), b, "square root solve inverts the square root");
}
static BlockDiagonal blocks(const char *b, const std::vector<int> &sz, Mat &D, bool pd) { BlockDiagonal r; int n = 0; for (int s : sz) n += s; D = Mat::Zero(n, n); int at = 0, k = 0; for (int s : sz) { std::string q = std::string(b) + std::to_string(k++) + "_"; Mat m = pd ? sym(q.c_str(), s) : any(q.c_str(), s, s); D.block(at, at, s, s) = m; r.blocks.push_back(m); at += s; } return r; }
static std::vector<int> shape() { static const std::vector<std::vector<int>> S = {{1}, {2}, {1, 1}, {1, 2}, {2, 1}, {1, 1, 1}, {2, 2}}; return S[symx::choose("shape", 0, S.size() - 1)]; }
HARNESS(block_diagonal) {
  auto sz = shape(); Mat D, E; auto B = blocks("a", sz, D, false), C = blocks("c", sz, E, false); int n = D.rows(); Mat b = any("b", n, 2); Vec v = vec("v", n); symx::check(B.rows() == n && B.cols() == n, "size"); symx::check_mat(B.toDense(), D, "dense form"); check_vec(B.diagonal(), Vec(D.diagonal()), "diagonal"); Mat p = B * b; symx::check_mat(p, mul(D, b), "product"); Vec pv = B * v; symx::check_mat(pv, mul(D, v), "vector product"); symx::check_mat((B - C).toDense(), D - E, "difference");
}
HARNESS(rectangular_blocks) {
  BlockDiagonal B; Mat a = any("a", 1, 2), c = any("c", 2, 1); int k = symx::choose("k", 0, 2); if (k == 0) B.blocks = {a, c}; else if (k == 1) B.blocks = {c, a}; else B.blocks = {a, c, a}; Mat D = B.toDense(); int r = 0, q = 0; for (auto &m : B.blocks) { for (int i = 0; i < D.rows(); i++) for (int j = 0; j < m.cols(); j++) symx::check_eq(D(i, q + j), i >= r && i < r + m.rows() ? m(i - r, j) : 0., "dense form of rectangular blocks"); r += m.rows(); q += m.cols(); } symx::check(B.rows() == r && B.cols() == q, "size of rectangular blocks");
}
HARNESS(block_diagonal_ldlt) {
  auto sz = shape(); Mat D; auto B = blocks("a", sz, D, true); int n = D.rows(); Mat b = any("b", n, 2), Ib = mul(inv(D), b); auto l = B.ldlt(); symx::check(l.rows() == n && l.cols() == n, "size"); symx::check_mat(l.solve(b), Ib, "block solve"); Vec v(n); for (int i = 0; i < n; i++) v[i] = b(i, 0); symx::check_mat(Mat(l.solve(v)), Ib.leftCols(1), "vector block solve"); Mat s = l.sqrt_solve(b); symx::check_mat(mul(tr(s), s), mul(tr(b), Ib), "block square root solve"); symx::check_eq(l.log_determinant(), std::log(det(D)), "block log determinant"); Mat wide(n, 3); wide << b, v; symx::check_mat(l.solve(wide.block(0, 1, n, 2)), l.solve(Mat(wide.block(0, 1, n, 2))), "solve of a block expression");
  Eigen::SparseMatrix<double> sp(n, 1); for (int i = 0; i < n; i++) if (i != 1) sp.insert(i, 0) = v[i]; Vec dv(v); if (n > 1) dv[1] = 0; symx::check_mat(l.solve(sp), Mat(l.solve(dv)), "sparse block solve"); symx::check_mat(l.sqrt_solve(sp), Mat(l.sqrt_solve(dv)), "sparse block square root solve"); auto m = l.block_to_row_map(); int at = 0; for (size_t i = 0; i < sz.size(); i++) { symx::check(m.at(i) == at, "row of each block"); at += sz[i]; }
}
HARNESS(block_symmetric) {
  int a = symx::choose("a", 1, 2), c = symx::choose("c", 1, a == 2 ? 1 : 2), n = a + c; Mat X = sym("x", n); Mat A = X.topLeftCorner(a, a), B = X.topRightCorner(a, c), C = X.bottomRightCorner(c, c); Mat b = any("b", n, 1), I = inv(X); Eigen::SerializableLDLT l(A); auto s = build_block_symmetric(l, B, C); symx::check(s.rows() == n && s.cols() == n, "size"); symx::check_mat(s.solve(b), mul(I, b), "block symmetric solve"); Mat S = C - mul(tr(B), mul(inv(A), B)); auto t = build_block_symmetric(l, B, Eigen::SerializableLDLT(S)); symx::check_mat(t.solve(b), mul(I, b), "block symmetric solve from the Schur complement"); Vec v = b.col(0); symx::check_mat(Mat(s.solve(v)), mul(I, b), "block symmetric vector solve");
}
HARNESS(block_symmetric_wide) { // nested, wide right hand side
  num_kernel(4); Mat X = table(pts(0, 4), pts(0, 4)); int a = symx::choose("a", 1, 2), c = symx::choose("c", 1, 2), n = a + c; Mat A = X.topLeftCorner(a, a), B = X.topRightCorner(4, 4).block(0, a, a, c), C = X.block(a, a, c, c); auto s = build_block_symmetric(Eigen::SerializableLDLT(A), B, C); Mat b = any("b", n, symx::choose("cols", 0, 4)); symx::check_mat(s.solve(b), mul(inv(X.topLeftCorner(n, n)), b), "wide block symmetric solve"); if (n < 4) { Mat B2 = X.block(0, n, n, 4 - n), C2 = X.block(n, n, 4 - n, 4 - n); auto u = build_block_symmetric(s, B2, C2); Mat d = any("d", 4, 2); symx::check_mat(u.solve(d), mul(inv(X), d), "nested block symmetric solve"); symx::check(u.rows() == 4 && u == u, "nested size"); }
}
HARNESS(representations) {
  int n = symx::choose("n", 1, 2); Mat A = sym("a", n), B = sym("i", n), b = any("b", n, 2); ExplainedCovariance e(A, B), f(Eigen::SerializableLDLT(A), B); Mat I = inv(A), r = mul(I, mul(B, mul(I, b))); symx::check_mat(e.solve(b), r, "explained covariance solve"); symx::check_mat(f.solve(b), r, "explained covariance solve from a factorisation"); symx::check(e.rows() == n && e.cols() == n && e == f, "explained covariance size and equality"); Mat S = mul(A, mul(inv(B), A)); symx::check_mat(mul(S, e.solve(b)), b, "explained covariance inverts its matrix");
  DirectInverse d(I); symx::check_mat(mul(A, d.solve(b)), b, "direct inverse solve"); symx::check(d.rows() == n && d.cols() == n && d == DirectInverse(I), "direct inverse size");
}
HARNESS(grouped_blocks) {
  Grouped<int, Mat> L, R, Q; int k = symx::choose("k", 1, 3); Mat sum = Mat::Zero(2, 2), inner = Mat::Zero(2, 1); for (int i = 0; i < k; i++) { L[9 - i] = any(("l" + std::to_string(i)).c_str(), 2, 2); R[9 - i] = any(("r" + std::to_string(i)).c_str(), 2, 1); Q[9 - i] = any(("q" + std::to_string(i)).c_str(), 2, 2); sum += L[9 - i]; inner += mul(tr(L[9 - i]), R[9 - i]); }
  symx::check_mat(block_sum(L), sum, "block sum"); symx::check_mat(block_inner_product(L, R), inner, "block inner product"); auto d = block_subtract(L, Q); symx::check((int)d.size() == k, "block difference size"); for (int i = 0; i < k; i++) symx::check_mat(d.at(9 - i), L[9 - i] - Q[9 - i], "block difference"); Mat p = block_accumulate(L, R, [](const Mat &x, const Mat &y) { return (x * y).eval(); }), pe = Mat::Zero(2, 1); for (int i = 0; i < k; i++) pe += mul(L[9 - i], R[9 - i]); symx::check_mat(p, pe, "block accumulate");
  Grouped<int, Eigen::SerializableLDLT> F; std::map<int, Mat> inverse; for (int i = 0; i < k; i++) { Mat A(2, 2); A << 3, 1, 1, 2; A(0, 0) += i; F[9 - i] = Eigen::SerializableLDLT(A); inverse[9 - i] = inv(A); } auto z = block_diag_solve(F, R); for (int i = 0; i < k; i++) symx::check_mat(z.at(9 - i), mul(inverse[9 - i], R[9 - i]), "block diagonal solve of groups");
}
HARNESS(stacking) {
  int k = symx::choose("k", 1, 3); std::vector<Mat> bs; int rows = 0; for (int i = 0; i < k; i++) { int r = symx::choose(nm("rows", i).c_str(), 0, 2); bs.push_back(any(("m" + std::to_string(i)).c_str(), r, 2)); rows += r; } Mat s = vertical_stack(bs); symx::check(s.rows() == rows && s.cols() == 2, "stacked size"); int at = 0; for (auto &b : bs) for (int i = 0; i < b.rows(); i++, at++) for (int j = 0; j < 2; j++) symx::check_eq(s(at, j), b(i, j), "stacked rows");
}
HARNESS(qr) {
  int k = symx::choose("k", 0, 3); Mat A; if (k == 0) { A.resize(3, 2); A << 1, 2, 0.5, -1, 2, 0.25; } else if (k == 1) { A.resize(4, 3); A << 3, 1, 0, 1, 2, -1, 0, -1, 4, 1, 0.5, 0.25; } else if (k == 2) { A.resize(3, 3); A << 1, 0, 3, 2, 1, 0, 0, 5, 1; } else { A.resize(2, 2); A << 0, 2, 1, 0; }
  int n = A.cols(); Mat b = any("b", n, 2); Eigen::ColPivHouseholderQR<Mat> q(A); Mat R = get_R(q); Mat P = get_P(q).toDenseMatrix().cast<double>(); symx::check(R.rows() == n && R.cols() == n, "R size"); Mat AtA = mul(tr(A), A), RtR = mul(tr(R), R); symx::check_mat(mul(P, mul(RtR, tr(P))), AtA, "R and P reproduce the normal matrix"); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) symx::check(R(i, j) == 0, "R is upper triangular"); Mat s = sqrt_solve(q, b); symx::check_mat(mul(tr(s), s), mul(tr(b), mul(inv(AtA), b)), "QR square root solve", 1e-5); symx::check_mat(sqrt_solve(R, get_P(q), b), s, "square root solve from R and P");
}
HARNESS(triangular_solve) {
  int n = symx::choose("n", 1, 3); Mat R = Mat::Zero(n, n); for (int i = 0; i < n; i++) for (int j = i; j < n; j++) R(i, j) = i == j ? rl(nm("r", i, j), 0.5, 4) : rl(nm("r", i, j), -2, 2); std::vector<int> perm; for (int i = 0; i < n; i++) perm.push_back(i); int k = symx::choose("perm", 0, n == 3 ? 5 : n == 2 ? 1 : 0); for (int i = 0; i < k; i++) std::next_permutation(perm.begin(), perm.end()); Eigen::PermutationMatrixX P(n); for (int i = 0; i < n; i++) P.indices()[i] = perm[i]; Mat Pd = Mat::Zero(n, n); for (int i = 0; i < n; i++) Pd(perm[i], i) = 1; Mat b = any("b", n, 2); Mat s = sqrt_solve(R, P, b); symx::check_mat(mul(tr(R), s), mul(tr(Pd), b), "R^T s = P^T b");
}
HARNESS(units) { // tiny and huge matrices which are as regular as any other
  double s = unit_of(symx::choose("unit", 0, 2)); int n = symx::choose("n", 1, 3); Mat B(n, n); if (n < 3) B = sym("a", n); else B << 2, .25, .5, .25, 1.5, -.25, .5, -.25, 1; Mat A = B * (s * s), b = any("b", n, 1), sb = b * s, e = Mat::Identity(n, n), Ib = mul(inv(B), b); Eigen::SerializableLDLT l(A); symx::check_mat(Mat(l.solve(sb) * s), Ib, "solve in other units"); Mat q = l.sqrt_solve(sb); symx::check_mat(mul(tr(q), q), mul(tr(b), Ib), "square root solve in other units"); Mat R = l.sqrt_product(e) / s; symx::check_mat(mul(R, tr(R)), B, "square root product in other units"); symx::check_mat(Mat(l.sqrt_transpose() / s), tr(R), "square root transpose in other units"); symx::check_mat(mul(tr(R), Mat(l.sqrt_transpose_solve(sb))), b, "square root transpose solve in other units"); check_vec(Vec(l.inverse_diagonal() * (s * s)), Vec(inv(B).diagonal()), "inverse diagonal in other units"); symx::check(l.is_positive_definite(), "positive definite");
  BlockDiagonal D; D.blocks = {A, Mat(A.topLeftCorner(1, 1))}; auto dl = D.ldlt(); Mat w(n + 1, 1); w << sb, sb.topRows(1); Mat x = dl.sqrt_solve(w), z = dl.solve(w) * s; symx::check_mat(Mat(z.topRows(n)), Ib, "block solve in other units"); symx::check_mat(Mat(x.topRows(n)), q, "block square root solve in other units"); symx::check_eq(z(n, 0) * B(0, 0), b(0, 0), "last block in other units");
}
HARNESS(large) { // more rows
  int n = 10; big_kernel(n); Mat A = table(pts(0, n), pts(0, n)), I = inv(A), b(n, 2); b << big_vec("b", n, 4), big_vec("c", n, 2); Mat Ib = mul(I, b), e = Mat::Identity(n, n); Eigen::SerializableLDLT l(A); symx::check_mat(l.solve(b), Ib, "solve of many"); Mat s = l.sqrt_solve(b), R = l.sqrt_product(e); symx::check_mat(mul(R, tr(R)), A, "square root product of many"); symx::check_mat(mul(R, s), b, "square root solve of many"); symx::check_mat(l.sqrt_transpose(), tr(R), "square root transpose of many"); symx::check_mat(mul(tr(R), l.sqrt_transpose_solve(b)), b, "square root transpose solve of many"); check_vec(l.inverse_diagonal(), Vec(I.diagonal()), "inverse diagonal of many"); symx::check_eq(l.log_determinant(), std::log(det(A)), "log determinant of many");
  std::vector<std::vector<std::size_t>> bl = {{7, 0, 3, 9}, {5}, {1, 2, 4, 6, 8}}; auto ib = l.inverse_blocks(bl); for (size_t k = 0; k < bl.size(); k++) for (size_t x = 0; x < bl[k].size(); x++) for (size_t y = 0; y < bl[k].size(); y++) symx::check_eq(ib[k](x, y), I(bl[k][x], bl[k][y]), "inverse block of many");
  BlockDiagonal D; Mat dense = Mat::Zero(n, n); int at = 0; for (int sz : {3, 1, 2, 3, 1}) { Mat m = A.block(at, at, sz, sz); D.blocks.push_back(m); dense.block(at, at, sz, sz) = m; at += sz; } Mat Db = mul(inv(dense), b); auto dl = D.ldlt(); symx::check_mat(dl.solve(b), Db, "block solve of many"); Mat x = dl.sqrt_solve(b); symx::check_mat(mul(tr(x), x), mul(tr(b), Db), "block square root solve of many"); symx::check_eq(dl.log_determinant(), std::log(det(dense)), "block log determinant of many"); symx::check_mat(D.toDense(), dense, "dense form of many"); symx::check_mat(Mat(D * b), mul(dense, b), "product of many");
  auto sy = build_block_symmetric(Eigen::SerializableLDLT(Mat(A.topLeftCorner(6, 6))), Mat(A.topRightCorner(6, 4)), Mat(A.bottomRightCorner(4, 4))); symx::check_mat(sy.solve(b), Ib, "block symmetric solve of many"); Mat T(n, 4); for (int i = 0; i < n; i++) for (int j = 0; j < 4; j++) T(i, j) = A(i, j) + (i == j); Mat TtT = mul(tr(T), T); Mat c = b.topRows(4); Eigen::ColPivHouseholderQR<Mat> q(T); Mat qs = sqrt_solve(q, c); symx::check_mat(mul(tr(qs), qs), mul(tr(c), mul(inv(TtT), c)), "QR square root solve of many", 1e-5);
}
