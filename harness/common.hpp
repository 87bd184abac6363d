// Shared helpers of the harnesses: features whose covariance and mean are looked
// up in tables of symbolic values (an arbitrary kernel), and reference formulas
// written independently of the code under test.
#pragma once
#include "symx.h"
#include <string>
#include <vector>
namespace hx {
using Mat = Eigen::MatrixXd;
using Vec = Eigen::VectorXd;
struct Pt {
  int id = 0;
  bool operator==(const Pt &o) const { return id == o.id; }
  bool operator<(const Pt &o) const { return id < o.id; }
  bool operator!=(const Pt &o) const { return id != o.id; }
  template <class A> void serialize(A &ar, const std::uint32_t) { ar(id); }
};
inline std::ostream &operator<<(std::ostream &os, const Pt &p) { return os << p.id; }
inline double K[48][48];   // kernel table
inline double W[48];       // extra variance seen only by measurements
inline double M[48];       // mean table
inline void zero_tables() { for (auto &r : K) for (double &x : r) x = 0; for (double &x : W) x = 0; for (double &x : M) x = 0; }
inline std::vector<Pt> pts(int from, int n) { std::vector<Pt> r; for (int i = 0; i < n; i++) r.push_back(Pt{from + i}); return r; }
inline std::string nm(const char *b, int i) { return std::string(b) + std::to_string(i); }
inline std::string nm(const char *b, int i, int j) { return std::string(b) + std::to_string(i) + "_" + std::to_string(j); }
inline double rl(const std::string &n, double lo, double hi) { return symx::real(n.c_str(), lo, hi); }
inline Vec vec(const char *b, int n, double lo = -5, double hi = 5) { Vec v(n); for (int i = 0; i < n; i++) v[i] = rl(nm(b, i), lo, hi); return v; }
// symmetric symbolic kernel over ids [0,n)
inline void sym_kernel(int n, double lo = -2, double hi = 2) {
  for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) K[i][j] = K[j][i] = i == j ? rl(nm("k", i, j), 0.25, 4) : rl(nm("k", i, j), lo, hi);
}
// fixed positive definite kernel over ids [0,n) with no special structure (dyadic values, so that exact arithmetic stays small)
inline void num_kernel(int n) {
  static const int t[12][12] = {{39,29,9,6,5,18,5,34,5,35,20,5},{29,40,21,13,9,7,10,36,10,22,35,11},{9,21,45,40,28,1,19,14,31,6,30,21},{6,13,40,48,41,0,24,9,44,4,21,25},{5,9,28,41,54,-1,37,7,50,3,13,33},{18,7,1,0,-1,41,-4,11,-1,25,4,-5},{5,10,19,24,37,-4,71,8,33,3,13,66},{34,36,14,9,7,11,8,39,7,29,29,8},{5,10,31,44,50,-1,33,7,52,3,15,30},{35,22,6,4,3,25,3,29,3,39,14,2},{20,35,30,21,13,4,13,29,15,14,41,14},{5,11,21,25,33,-5,66,8,30,2,14,82}};
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) K[i][j] = t[i][j] / 16.;
}
inline Mat table(const std::vector<Pt> &a, const std::vector<Pt> &b) { Mat m(a.size(), b.size()); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) m(i, j) = K[a[i].id][b[j].id]; return m; }
inline Vec means(const std::vector<Pt> &a) { Vec m(a.size()); for (size_t i = 0; i < a.size(); i++) m[i] = M[a[i].id]; return m; }
// Gauss-Jordan without pivoting: A must be positive definite
inline Mat inv(Mat a) {
  int n = a.rows(); Mat r = Mat::Identity(n, n);
  for (int c = 0; c < n; c++) {
    double p = a(c, c);
    for (int j = 0; j < n; j++) { a(c, j) = a(c, j) / p; r(c, j) = r(c, j) / p; }
    for (int i = 0; i < n; i++) if (i != c) { double f = a(i, c); for (int j = 0; j < n; j++) { a(i, j) = a(i, j) - f * a(c, j); r(i, j) = r(i, j) - f * r(c, j); } }
  }
  return r;
}
inline double det(Mat a) { int n = a.rows(); double d = 1; for (int c = 0; c < n; c++) { double p = a(c, c); d = d * p; for (int i = c + 1; i < n; i++) { double f = a(i, c) / p; for (int j = c; j < n; j++) a(i, j) = a(i, j) - f * a(c, j); } } return d; }
inline Mat mul(const Mat &a, const Mat &b) { Mat r = Mat::Zero(a.rows(), b.cols()); for (int i = 0; i < a.rows(); i++) for (int j = 0; j < b.cols(); j++) for (int k = 0; k < a.cols(); k++) r(i, j) += a(i, k) * b(k, j); return r; }
// leading principal minors bounded away from zero
// a fixed positive definite kernel for many points: a random walk plus three smooth directions plus a diagonal
inline void big_kernel(int n) { for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { int a = (i * 7) % n, b = (j * 7) % n; K[i][j] = 0.25 + 0.0625 * (a < b ? a : b) + ((i % 3) - 1) * ((j % 3) - 1) * 0.5 + ((i % 5) - 2) * ((j % 5) - 2) * 0.125 + (i == j ? 0.5 : 0.); } }
inline void big_tables(int n) { zero_tables(); big_kernel(n); for (int i = 0; i < n; i++) { M[i] = 0.25 * (i % 7) - 1; W[i] = 0.125 * (i % 3) + 0.0625; } }
inline Vec big_noise(int n) { Vec v(n); for (int i = 0; i < n; i++) v[i] = 0.25 * (i % 4) + 0.125; return v; }
// n values of which `k`, spread out, are symbolic
inline Vec big_vec(const char *b, int n, int k) { Vec v(n); for (int i = 0; i < n; i++) v[i] = 0.125 * ((i * 5) % 17) - 1; for (int i = 0; i < k; i++) { int at = k == 1 ? n / 2 : i * (n - 1) / (k - 1); v[at] = rl(nm(b, at), -5, 5); } return v; }
// units: the same model and data in units 1/s of the original ones (s a power of two, so this is exact)
inline double unit_of(int i) { return i == 0 ? 0x1p-40 : i == 1 ? 0x1p-14 : 0x1p20; }
inline void rescale_tables(double s) { for (auto &r : K) for (double &x : r) x = x * (s * s); for (double &x : W) x = x * (s * s); for (double &x : M) x = x * s; }
inline void assume_pd(const Mat &a, double margin = 0.05) { for (int k = 1; k <= a.rows(); k++) symx::assume(det(a.topLeftCorner(k, k)) >= margin); }
struct Gauss { Vec mean; Mat cov; };
// conditional of test given train with prior means/covs; obs covariance already in A
inline Gauss condition(const Mat &A, const Vec &y, const Vec &m, const Mat &Kts, const Mat &Kss, const Vec &ms) {
  Mat Ai = inv(A); Mat G = mul(Kts.transpose(), Ai); Mat d(y.size(), 1); for (int i = 0; i < y.size(); i++) d(i, 0) = y[i] - m[i];
  Mat mu = mul(G, d); Gauss g; g.mean = Vec(ms.size()); for (int i = 0; i < ms.size(); i++) g.mean[i] = mu(i, 0) + ms[i];
  Mat e = mul(G, Kts); g.cov = Kss; for (int i = 0; i < e.rows(); i++) for (int j = 0; j < e.cols(); j++) g.cov(i, j) = Kss(i, j) - e(i, j); return g;
}
inline void check_vec(const Vec &a, const Vec &b, const char *l, double tol = 1e-6) { symx::check(a.size() == b.size(), l); if (a.size() != b.size()) return; for (int i = 0; i < a.size(); i++) symx::check_eq(a[i], b[i], l, tol); }
}
#ifdef ALBATROSS_COVARIANCE_FUNCTIONS_COVARIANCE_FUNCTION_H
namespace hx {
struct TableCov : public albatross::CovarianceFunction<TableCov> {
  std::string name() const { return "table"; }
  double _call_impl(const Pt &a, const Pt &b) const { return K[a.id][b.id]; }
};
struct TableNoise : public albatross::CovarianceFunction<TableNoise> { // seen only when both sides are measurements
  std::string name() const { return "table_noise"; }
  double _call_impl(const Pt &a, const Pt &b) const { return a.id == b.id ? W[a.id] : 0.; }
};
struct TableMean : public albatross::MeanFunction<TableMean> {
  std::string name() const { return "table_mean"; }
  double _call_impl(const Pt &a) const { return M[a.id]; }
};
inline auto table_gp() { return albatross::gp_from_covariance_and_mean(TableCov() + albatross::measurement_only(TableNoise()), TableMean(), "table"); }
}
#endif
