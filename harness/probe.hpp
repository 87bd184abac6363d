// A model with no cross validation shortcut: its fit remembers the training
// data and its predictions are sums over it, with symbolic coefficients per
// (training point, test point), so a prediction reveals what it was trained on.
#pragma once
namespace hx {
struct Probe;
inline double C1[20][20], C2[20][20], Cm[20];   // contributions to mean and variance; measurement noise per test point
inline void probe_tables(int n) { for (int i = 0; i < n; i++) { Cm[i] = 0; for (int j = 0; j < n; j++) { C1[i][j] = rl(nm("c", i, j), -3, 3); C2[i][j] = rl(nm("d", i, j), 0, 3); } } }
// fixed coefficients
inline void probe_numbers(int n) { for (int i = 0; i < n; i++) { Cm[i] = 0; for (int j = 0; j < n; j++) { C1[i][j] = 0.25 * ((i * 7 + j * 5) % 11) - 1; C2[i][j] = 0.125 * ((i * 3 + j * 11) % 13); } } }
}
namespace albatross {
template <> struct Fit<hx::Probe> { std::vector<hx::Pt> f; Eigen::VectorXd y, s; bool operator==(const Fit<hx::Probe> &o) const { return f == o.f && y == o.y && s == o.s; } };
}
namespace hx {
struct Probe : public albatross::ModelBase<Probe> {
  std::string get_name() const { return "probe"; }
  albatross::Fit<Probe> _fit_impl(const std::vector<Pt> &f, const albatross::MarginalDistribution &t) const { albatross::Fit<Probe> r; r.f = f; r.y = t.mean; r.s = t.covariance.diagonal(); return r; }
  albatross::JointDistribution _predict_impl(const std::vector<Pt> &f, const albatross::Fit<Probe> &fit, albatross::PredictTypeIdentity<albatross::JointDistribution> &&) const {
    Vec m = Vec::Zero(f.size()); Mat c = Mat::Zero(f.size(), f.size());
    for (size_t j = 0; j < f.size(); j++) for (size_t i = 0; i < fit.f.size(); i++) m[j] += C1[fit.f[i].id][f[j].id] * fit.y[i];
    for (size_t j = 0; j < f.size(); j++) for (size_t k = 0; k < f.size(); k++) for (size_t i = 0; i < fit.f.size(); i++) c(j, k) += (C2[fit.f[i].id][f[j].id] + C2[fit.f[i].id][f[k].id]) * fit.s[i] + (j == k ? 1. : 0.);
    return albatross::JointDistribution(m, c);
  }
};
inline double probe_mean(const std::vector<int> &train, int j, const Vec &y) { double m = 0; for (int i : train) m += C1[i][j] * y[i]; return m; }
inline double probe_cov(const std::vector<int> &train, int j, int k, const Vec &s) { double c = 0; for (int i : train) c += (C2[i][j] + C2[i][k]) * s[i] + (j == k ? 1. : 0.); return c; }
}
