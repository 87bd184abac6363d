// @bounds: greedy tuner with up to 3 parameters (one fixed), 2 iterations, 1 or 2 queries per direction and every value (or NaN) the objective may return; gradients of up to 3 parameters with an arbitrary objective; 12 and 101 values given to the generic tuner; model tuner with up to 3 datasets and an optimiser making up to 3 arbitrary evaluations
// @assume: the optimiser (nlopt, replaced by an arbitrary one in stubs/nlopt.hpp) evaluates points within the bounds it is given and returns the best of them; start values are within bounds
#include <albatross/GP>
#include <albatross/Tune>
#include <albatross/CovarianceFunctions>
#include "common.hpp"
using namespace albatross; using namespace hx;
static bool holds(double v, double lo, double hi, double t = 1e-6) { return v >= lo - t && v <= hi + t; }
struct Spec { ParameterStore p; std::vector<std::string> free; std::map<std::string, double> lo, hi; std::map<std::string, bool> logs; };
static Spec spec(int n, bool logs) {
  Spec s; static const char *names[3] = {"a", "b", "c"}; int fixed = symx::choose("fixed", 0, n); int at = symx::choose("at", 0, 2);
  for (int i = 0; i < n; i++) { std::string k = names[i]; if (i == fixed) { s.p[k] = Parameter(rl("v" + k, -9, 9), FixedPrior()); continue; } s.free.push_back(k); double lo, hi; bool l = logs && i == 1; if (l) { lo = 0.5; hi = 8; } else { lo = -1 - i; hi = 2 + i; } double v = i == 0 ? at == 0 ? lo : at == 1 ? hi : rl("v" + k, lo, hi) : l ? 2.0 : rl("v" + k, lo, hi); s.lo[k] = lo; s.hi[k] = hi; s.logs[k] = l; if (l) s.p[k] = Parameter(v, LogScaleUniformPrior(lo, hi)); else s.p[k] = Parameter(v, UniformPrior(lo, hi)); }
  return s;
}
static bool inside(const Spec &s, const ParameterStore &p) { bool ok = p.size() == s.p.size(); for (auto &kv : s.p) if (ok) { ok = p.count(kv.first) && p.at(kv.first).prior == kv.second.prior; if (!ok) break; if (kv.second.is_fixed()) ok = p.at(kv.first).value == kv.second.value; else ok = holds(p.at(kv.first).value, s.lo.at(kv.first), s.hi.at(kv.first)); } return ok; }
static bool same(const ParameterStore &a, const ParameterStore &b) { if (a.size() != b.size()) return false; for (auto &kv : a) { if (!b.count(kv.first)) return false; double d = kv.second.value - b.at(kv.first).value; if (!(d <= 1e-6 && d >= -1e-6)) return false; } return true; }
static void greedy(const Spec &s, int queries, int iters, int nans) {
  struct Eval { ParameterStore p; double f; }; std::vector<Eval> seen; int k = 0; int nan = nans ? symx::choose("nan", 0, nans) : 0;
  auto f = [&](const ParameterStore &p) { double v = nan == k + 1 ? (double)NAN : nan == 1 && nans == 1 ? (double)NAN : rl(nm("f", k), -10, 10); k++; seen.push_back({p, v}); return v; };
  auto r = greedy_tune(f, s.p, queries, iters, nullptr, nullptr); symx::check(inside(s, r), "result within bounds, fixed parameters unchanged"); bool start = false; int best = -1; for (size_t i = 0; i < seen.size(); i++) { symx::check(inside(s, seen[i].p), "evaluates within bounds"); start = start || same(seen[i].p, s.p); if (!std::isnan(seen[i].f) && (best < 0 || seen[i].f < seen[best].f)) best = i; }
  if (s.free.empty() || iters == 0) { symx::check(seen.empty() && same(r, s.p), "nothing to tune"); return; }
  symx::check(start, "the start is evaluated"); symx::check((int)seen.size() == 1 + iters * (int)s.free.size() * 2 * queries, "number of evaluations"); if (best < 0) symx::check(same(r, s.p), "start is kept when nothing is better"); else { bool any = false; for (auto &e : seen) if (e.f == seen[best].f && same(e.p, r)) any = true; symx::check(any, "returns the best evaluated parameters"); }
}
HARNESS(greedy_one) { greedy(spec(1, false), symx::choose("queries", 1, 2), symx::choose("iterations", 0, 2), 0); }
HARNESS(greedy_undefined) { greedy(spec(1, false), 1, 1, 3); }
HARNESS(greedy_two) { greedy(spec(2, symx::choose("log", 0, 1)), 1, 1, 0); }
HARNESS(greedy_all_undefined) { auto s = spec(2, false); int k = 0; auto f = [&](const ParameterStore &) { k++; return (double)NAN; }; auto r = greedy_tune(f, s.p, 2, 2, nullptr, nullptr); symx::check(same(r, s.p), "an undefined objective moves nothing"); }
HARNESS(greedy_directions) { // the queries search both directions
  auto s = spec(1, false); if (s.free.empty()) return; double v = s.p.at("a").value; int q = symx::choose("queries", 1, 3); std::vector<double> x; auto f = [&](const ParameterStore &p) { x.push_back(p.at("a").value); return 0.; }; greedy_tune(f, s.p, q, 1, nullptr, nullptr); int up = 0, down = 0, none = 0; for (double y : x) { if (y > v) up++; else if (y < v) down++; else none++; } bool lo = v == s.lo["a"], hi = v == s.hi["a"]; symx::check(none == 1 && up == (lo ? 2 * q : hi ? 0 : q) && down == (hi ? 2 * q : lo ? 0 : q), "queries lie on both sides of the current value unless it is at a bound"); for (double y : x) symx::check((y > s.lo["a"] || lo) && (y < s.hi["a"] || hi), "queries lie between the current value and the bounds");
}
HARNESS(greedy_unbounded) { // a missing bound does not stop the search in its direction
  int kind = symx::choose("kind", 0, 3), q = symx::choose("queries", 1, 2); double edge = rl("edge", -20, 20), d = kind == 3 ? 0. : rl("distance", 0.5, 5), lo = kind == 0 || kind == 3 ? -INFINITY : edge, hi = kind == 1 ? INFINITY : kind == 2 ? edge + 7 : edge, v = kind == 1 || kind == 2 ? edge + d : edge - d; ParameterStore s; s["a"] = Parameter(v, UniformPrior(lo, hi)); std::vector<double> x; auto f = [&](const ParameterStore &p) { x.push_back(p.at("a").value); return 0.; }; greedy_tune(f, s, q, 1, nullptr, nullptr); int up = 0, down = 0; for (double y : x) { up += y > v; down += y < v; symx::check(y >= lo && y <= hi, "queries within one sided bounds"); } symx::check(down == (kind == 3 ? 2 * q : q) && up == (kind == 3 ? 0 : q), "both directions are searched unless at a bound");
}
HARNESS(greedy_threads) { auto s = spec(1, false); auto p = std::make_shared<ThreadPool>(3); auto g = [](const ParameterStore &q) { return symx_app_("objective", q.at("a").value, 0); }; auto a = greedy_tune(g, s.p, 1, 1, nullptr, nullptr); ThreadPool::adversarial = true; auto b = greedy_tune(g, s.p, 1, 1, p.get(), nullptr); ThreadPool::adversarial = false; for (auto &kv : a) symx::check(b.at(kv.first).value == kv.second.value, "threads do not change the result"); }
// ---- gradients ----
HARNESS(gradient_vector) {
  int n = symx::choose("n", 0, 3); std::vector<double> x; for (int i = 0; i < n; i++) x.push_back(rl(nm("x", i), -5, 5)); double f0 = rl("f0", -5, 5); std::vector<std::vector<double>> at; std::vector<double> val; auto f = [&](const std::vector<double> &y) { at.push_back(y); val.push_back(rl(nm("f", 10 + (int)val.size()), -5, 5)); return val.back(); }; auto g = compute_gradient(f, x, f0); symx::check((int)g.size() == n && (int)at.size() == n, "one difference quotient per parameter"); for (int i = 0; i < n; i++) { double h = at[i][i] - x[i]; symx::check(h > 0 && h <= 1e-4, "small step"); for (int j = 0; j < n; j++) if (j != i) symx::check(at[i][j] == x[j], "only one parameter moves"); symx::check_eq(g[i] * h, val[i] - f0, "difference quotient", 1e-5); }
}
static void gradient(const Spec &s) {
  auto t = get_tunable_parameters(s.p); double f0 = rl("f0", -5, 5); std::vector<ParameterStore> at; std::vector<double> val; auto f = [&](const ParameterStore &p) { at.push_back(p); val.push_back(rl(nm("f", 10 + (int)val.size()), -5, 5)); return val.back(); }; auto g = compute_gradient(f, s.p, f0); symx::check(g.size() == s.free.size() && at.size() == s.free.size(), "one evaluation per free parameter");
  for (size_t i = 0; i < s.free.size(); i++) { auto &k = s.free[i]; symx::check(inside(s, at[i]), "evaluates within bounds"); symx::check(params_are_valid(at[i]) || s.logs.at(k), "valid parameters"); double v = s.p.at(k).value, w = at[i].at(k).value, h; if (s.logs.at(k)) h = std::log(w) - std::log(v); else h = w - v; symx::check(w != v, "the parameter is moved"); for (auto &kv : s.p) if (kv.first != k) { double d = at[i].at(kv.first).value - kv.second.value; symx::check(d <= 1e-9 && d >= -1e-9, "only one parameter moves"); }
    double q = (val[i] - f0), gh = g[i] * h; bool at_hi = v >= s.hi.at(k), at_lo = v <= s.lo.at(k); bool outward = (at_hi && q * h < 0) || (at_lo && q * h > 0); if (outward) symx::check(g[i] == 0, "no descent out of the bounds"); else symx::check_eq(gh, q, "difference quotient", 1e-5); }
}
HARNESS(gradient_store) { gradient(spec(2, false)); }
HARNESS(gradient_log) { gradient(spec(3, true)); }
HARNESS(gradient_unbounded) { ParameterStore p; double v = rl("v", -5, 5); int kind = symx::choose("kind", 0, 2); if (kind == 1) symx::assume(v >= 0); if (kind == 2) symx::assume(v >= 0.5); p["a"] = kind == 0 ? Parameter(v) : kind == 1 ? Parameter(v, NonNegativePrior()) : Parameter(v, PositivePrior()); double f0 = rl("f0", -5, 5), f1 = rl("f1", -5, 5), w = 0; int n = 0; auto f = [&](const ParameterStore &q) { n++; w = q.at("a").value; return f1; }; auto g = compute_gradient(f, p, f0); symx::check(n == 1 && g.size() == 1, "one evaluation"); double h = w - v; symx::check(h > 0 && h < 1e-4, "small step"); if (kind == 1 && v <= 0 && f1 > f0) symx::check(g[0] == 0, "no descent out of the bounds"); else symx::check_eq(g[0] * h, f1 - f0, "difference quotient", 1e-5); }
HARNESS(gradient_threads) { auto s = spec(2, false); auto p = std::make_shared<ThreadPool>(2); auto f = [](const ParameterStore &q) { return symx_app_("objective", q.at("a").value, q.at("b").value); }; double f0 = f(s.p); auto a = compute_gradient(f, s.p, f0); ThreadPool::adversarial = true; auto b = compute_gradient(f, s.p, f0, p.get()); ThreadPool::adversarial = false; symx::check(a.size() == b.size(), "size"); for (size_t i = 0; i < a.size(); i++) symx::check_eq(a[i], b[i], "threads do not change the gradient"); }
// ---- tuners driven by an arbitrary optimiser ----
static std::ostringstream quiet;
HARNESS(generic_store) {
  auto s = spec(2, true); nlopt::settings().steps = symx::choose("steps", 1, 3); std::vector<ParameterStore> seen; std::vector<double> val; int bad = symx::choose("odd", 0, 3); auto f = [&](const ParameterStore &p) { seen.push_back(p); val.push_back(bad && val.size() == 1 ? bad == 1 ? (double)NAN : bad == 2 ? -INFINITY : INFINITY : rl(nm("f", val.size()), -5, 5)); return val.back(); }; GenericTuner t(s.p, quiet); auto r = t.tune(f); symx::check(inside(s, r), "result within bounds, fixed parameters unchanged"); int best = -1; for (size_t i = 0; i < seen.size(); i++) { symx::check(inside(s, seen[i]), "evaluates within bounds"); if (!std::isnan(val[i]) && (best < 0 || val[i] < val[best])) best = i; } symx::check((int)seen.size() == nlopt::settings().steps, "one evaluation per step"); symx::check(best >= 0 && same(r, seen[best]), "returns the best evaluated parameters"); nlopt::settings().steps = 1;
}
HARNESS(generic_vector) {
  int n = symx::choose("n", 1, 2); nlopt::settings().steps = 2; std::vector<double> x0; for (int i = 0; i < n; i++) x0.push_back(rl(nm("x", i), -5, 5)); std::vector<std::vector<double>> seen; std::vector<double> val; GenericTuner t(x0, quiet); int kind = symx::choose("eigen", 0, 1); std::vector<double> r; auto rec = [&](const std::vector<double> &x) { seen.push_back(x); val.push_back(rl(nm("f", val.size()), -5, 5)); return val.back(); };
  if (kind) { auto f = [&](const Eigen::VectorXd &x) { return rec(std::vector<double>(x.data(), x.data() + x.size())); }; Eigen::VectorXd e = t.tune(f); r.assign(e.data(), e.data() + e.size()); } else { auto f = [&](const std::vector<double> &x) { return rec(x); }; r = t.tune(f); }
  symx::check(seen.size() == 2 && (int)r.size() == n, "one evaluation per step"); int best = val[1] < val[0] ? 1 : 0; for (int i = 0; i < n; i++) { symx::check(seen[0][i] == x0[i], "starts at the start"); symx::check(r[i] == seen[best][i], "returns the best evaluated values"); } nlopt::settings().steps = 1;
}
HARNESS(generic_gradient) {
  ParameterStore p; p["a"] = Parameter(rl("va", -1, 1), UniformPrior(-1, 1)); p["b"] = Parameter(rl("vb", -1, 1)); GenericTuner t(p, quiet); t.optimizer = default_gradient_optimizer(p); std::vector<ParameterStore> seen; int k = 0; auto f = [&](const ParameterStore &q) { seen.push_back(q); k++; return rl(nm("f", k), -5, 5); }; auto r = t.tune(f); symx::check(k == 3, "objective and one evaluation per gradient entry"); symx::check(same(seen[0], p) && same(r, p), "starts at the start"); for (auto &q : seen) symx::check(params_are_valid(q), "evaluates within bounds");
}
static double agg_max(const std::vector<double> &v) { double m = v[0]; for (double x : v) m = x > m ? x : m; return m; }
static std::vector<double> &tried() { static std::vector<double> t; return t; } // the points seen, in order
struct Metric { std::vector<std::vector<double>> *table; template <class M> double operator()(const RegressionDataset<Pt> &d, const M &m) const { double v = m.get_params().at("sigma_constant").value; auto &t = tried(); int k = d.features[0].id == 0 ? (int)t.size() : (int)t.size() - 1; if (k == (int)t.size()) t.push_back(v); symx::check(t[k] == v, "every dataset is scored with the same parameters"); return (*table)[k][(int)d.features[0].id]; } };
HARNESS(model_tuner) {
  int n = symx::choose("datasets", 1, 3), ag = symx::choose("aggregator", 0, 1), single = n == 1 ? symx::choose("single", 0, 1) : 0; nlopt::settings().steps = 3; tried().clear(); std::vector<std::vector<double>> table(3); for (int k = 0; k < 3; k++) for (int i = 0; i < n; i++) table[k].push_back(rl(nm("s", 10 * k + i), -5, 5)); Metric metric{&table}; auto m = gp_from_covariance(Constant(1.), "m"); m.set_param("sigma_constant", Parameter(rl("v", 0.5, 2), UniformPrior(0.5, 2))); std::vector<RegressionDataset<Pt>> ds; Vec y = vec("y", n); for (int i = 0; i < n; i++) { Vec one(1); one[0] = y[i]; ds.emplace_back(pts(i, 1), one); } auto t = single ? get_tuner(m, metric, ds[0], ag ? agg_max : mean_aggregator, quiet) : get_tuner(m, metric, ds, ag ? agg_max : mean_aggregator, quiet); auto r = t.tune();
  auto &at = tried(); double v1 = r.at("sigma_constant").value; symx::check(at.size() == 3 && r.size() == 1 && holds(v1, 0.5, 2, 0), "result within bounds"); int best = 0; double score[3]; for (int k = 0; k < 3; k++) { double x = 0; if (ag) x = agg_max(table[k]); else { for (double q : table[k]) x += q; x /= n; } score[k] = x; symx::check(holds(at[k], 0.5, 2, 0), "evaluates within bounds"); if (k && score[k] < score[best]) best = k; } symx::check(at[0] == m.get_params().at("sigma_constant").value, "starts at the start"); bool any = false; for (int k = 0; k < 3; k++) if (score[k] <= score[best] + 1e-9 && v1 == at[k]) any = true; symx::check(any, "returns the best evaluated parameters"); nlopt::settings().steps = 1;
}
HARNESS(aggregator) { int n = symx::choose("n", 1, 4); std::vector<double> x; double s = 0; for (int i = 0; i < n; i++) { x.push_back(rl(nm("x", i), -5, 5)); s += x[i]; } symx::check_eq(mean_aggregator(x) * n, s, "mean of the metrics"); }
HARNESS(generic_many) { // many values keep their order, by std::vector and by Eigen vector
  int n = symx::choose("n", 0, 1) ? 12 : 101; nlopt::settings().steps = 2; std::vector<double> x0; for (int i = 0; i < n; i++) x0.push_back(i % 5 == 1 && i < 12 ? rl(nm("x", i), -5, 5) : 0.25 * i - 1); std::vector<std::vector<double>> seen; std::vector<double> val; GenericTuner t(x0, quiet); int kind = symx::choose("eigen", 0, 1); std::vector<double> r; auto rec = [&](const std::vector<double> &x) { seen.push_back(x); val.push_back(val.empty() ? 1. : 2.); return val.back(); };
  if (kind) { auto f = [&](const Eigen::VectorXd &x) { return rec(std::vector<double>(x.data(), x.data() + x.size())); }; auto e = t.tune(f); r.assign(e.data(), e.data() + e.size()); } else { auto f = [&](const std::vector<double> &x) { return rec(x); }; r = t.tune(f); } nlopt::settings().steps = 1;
  symx::check(int(seen.at(0).size()) == n && int(r.size()) == n, "as many values as given"); if (int(seen[0].size()) != n || int(r.size()) != n) return; for (int i = 0; i < n; i++) { symx::check_eq(seen[0][i], x0[i], "starts at the start given", 1e-9); symx::check_eq(r[i], x0[i], "returns the best, in the order given", 1e-9); }
}
HARNESS(gradient_many) { // many parameters, some fixed or at a bound
  int n = 14; ParameterStore p; std::map<std::string, double> c; std::vector<std::string> free; for (int i = 0; i < n; i++) { std::string k = "p" + std::to_string(i); double v = 0.25 * i - 1; c[k] = i % 4 == 1 ? rl(nm("c", i), -3, 3) : 0.5 * i - 2.25; p[k] = Parameter(v, UniformPrior(-2, 3)); if (i % 5 == 3) p[k].prior = FixedPrior(); if (i == 7) p[k].prior = UniformPrior(-2, v); if (i == 10) p[k].prior = UniformPrior(v, 4); } for (auto &kv : p) if (!kv.second.is_fixed()) free.push_back(kv.first);
  auto f = [&](const ParameterStore &q) { double s = 0; for (auto &kv : q) s += c.at(kv.first) * kv.second.value; return s; }; auto g = compute_gradient(f, p, f(p)); symx::check(g.size() == free.size(), "one entry per tunable parameter"); if (g.size() != free.size()) return; for (size_t i = 0; i < g.size(); i++) { double want = c[free[i]]; if (free[i] == "p7" && want < 0) want = 0; if (free[i] == "p10" && want > 0) want = 0; symx::check_eq(g[i], want, "gradient of many", 1e-4); }
}
