// @bounds: call traces of sums and products of up to four covariance functions of which any may be undefined for the features, every value symbolic; printed stores of up to 3 parameters with every kind of prior; RANSAC outputs of up to 2 iterations and 3 groups; datasets of up to 3 entries; greedy tuner reports of up to 2 parameters and 2 iterations with an arbitrary objective; eigen directions of numeric matrices of order 2 to 8 with an arbitrary printing threshold and scale
// @assume: how a number is spelled is outside (each number written becomes a token which stands for it)
// @flags: -D_GLIBCXX_EXTERN_TEMPLATE=0
#include "tokens.hpp"
#define to_string symx_to_string
#define ALBATROSS_CEREAL_SUITESPARSE_H
#define ALBATROSS_CEREAL_SERIALIZABLE_SPQR_H
#include <albatross/GP>
#include <albatross/CovarianceFunctions>
#include <albatross/Ransac>
#include <albatross/Tune>
#include <albatross/src/linalg/print_eigen_directions.hpp>
#undef to_string
#include "common.hpp"
using namespace albatross; using namespace hx;
static void eq(double a, double b, const char *l, double tol = 1e-9) { symx::check_eq(a, b, l, tol); }
static std::vector<std::string> cut(const std::string &s, char at) { std::vector<std::string> r(1); for (char c : s) if (c == at) r.emplace_back(); else r.back().push_back(c); return r; }
static std::vector<std::string> lines(const std::string &s) { auto r = cut(s, '\n'); if (!r.empty() && r.back().empty()) r.pop_back(); return r; }
static std::vector<std::string> words(const std::string &s) { std::vector<std::string> r; std::string w; for (char c : s) if (c == ' ' || c == '\n') { if (!w.empty()) r.push_back(w); w.clear(); } else w.push_back(c); if (!w.empty()) r.push_back(w); return r; }
static std::string strip(std::string s, const char *tail = ",}]") { while (!s.empty() && std::string(tail).find(s.back()) != std::string::npos) s.pop_back(); while (!s.empty() && (s[0] == '[' || s[0] == '{')) s.erase(0, 1); return s; }
static void number(const std::string &c, double want, const char *l) { long k = token_id(c); symx::check(k >= 0, l); if (k >= 0) { if (std::isinf(want) || std::isnan(want)) symx::check(std::isnan(want) ? std::isnan(told[size_t(k)]) : told[size_t(k)] == want, l); else eq(told[size_t(k)], want, l); } }
static bool has(const std::string &s, const std::string &part) { return s.find(part) != std::string::npos; }

// ---- call traces ----
struct FX { int id; }; struct FY { int id; };
static double val[3][2]; // values of the three leaf functions, at (X, X) and (X, Y)
template <int N, bool Mixed> struct Leaf : CovarianceFunction<Leaf<N, Mixed>> { std::string name() const { return std::string("leaf") + char('0' + N); } double _call_impl(const FX &, const FX &) const { return val[N][0]; } template <typename T, typename std::enable_if<Mixed && std::is_same<T, FY>::value, int>::type = 0> double _call_impl(const FX &, const T &) const { return val[N][1]; } };
using A = Leaf<0, true>; using B = Leaf<1, false>; using C = Leaf<2, true>;
struct Want { std::string name; double v; bool defined; int depth; char op; };
static std::string trim(const std::string &s) { size_t a = 0, b = s.size(); while (a < b && s[a] == ' ') a++; while (b > a && s[b - 1] == ' ') b--; return s.substr(a, b - a); }
static void entry(const std::string &call, const std::string &value, const Want &w) { std::string lead; for (int i = 0; i < w.depth; i++) lead += " |  "; if (w.depth) lead[2] = w.op; (void)lead;
  auto split = [](const std::string &s, std::string &text) { size_t p = 0; while (s.size() - p >= 4 && s[p] == ' ' && s[p + 1] == '|' && s[p + 3] == ' ') p += 4; text = trim(s.substr(p)); return s.substr(0, p); };
  std::string ct, vt; auto cl = split(call, ct), vl = split(value, vt); symx::check(cl == vl, "the same offset for name and value"); symx::check(int(cl.size()) == 4 * w.depth, "offset by the level"); symx::check(ct == w.name, "name of the function"); if (w.defined) number(vt, w.v, "value of the function"); else symx::check(vt == "UNDEFINED", "undefined functions are shown as such"); if (w.depth && !cl.empty()) { int ops = 0; bool right = false; for (size_t i = 0; i + 2 < cl.size(); i += 4) { if (cl[i + 2] == w.op) right = true; if (cl[i + 2] != ' ') ops++; } symx::check(right && ops == 1, "operator of the parent"); } }
template <class F> static void traced(const F &f, bool mixed, const std::vector<Want> &want) {
  told.clear(); auto run = [&](const std::vector<CallAndValue> &t) { symx::check(t.size() == want.size(), "one line per function"); for (size_t i = 0; i < t.size() && i < want.size(); i++) entry(t[i].call_name, t[i].value, want[i]); }; FX x{0}; FY y{0}; if (mixed) run(f.call_trace().get_trace(x, y)); else run(f.call_trace().get_trace(x, x));
  std::ostringstream os; auto *old = std::cout.rdbuf(os.rdbuf()); if (mixed) f.call_trace().print(x, y); else f.call_trace().print(x, x); std::cout.rdbuf(old); auto ls = lines(os.str()); symx::check(ls.size() == want.size() + 2, "a heading and the lines"); if (ls.size() != want.size() + 2) return; size_t at = ls[0].find("FUNCTION"); symx::check(has(ls[0], "VALUE") && at != std::string::npos, "heading"); for (size_t i = 0; i < want.size(); i++) { symx::check(ls[i + 2].size() > at, "value and function columns"); if (ls[i + 2].size() <= at) return; std::string v = ls[i + 2].substr(0, at), c = ls[i + 2].substr(at); auto rtrim = [](std::string s) { while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }; entry(rtrim(c), rtrim(v), want[i]); }
}
HARNESS(traces) {
  for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) val[i][j] = rl(nm("v", i, j), -4, 4); bool m = symx::choose("mixed", 0, 1); double a = val[0][m], b = val[1][m], c = val[2][m]; bool d = !m; A fa; B fb; C fc; std::string na = fa.get_name(), nb = fb.get_name(), nc = fc.get_name();
  switch (symx::choose("shape", 0, 6)) {
  case 0: traced(fa, m, {{na, a, true, 0, ' '}}); break;
  case 1: traced(fb, m, {{nb, b, d, 0, ' '}}); break;
  case 2: { auto f = fa + fb; traced(f, m, {{"(" + na + "+" + nb + ")", d ? a + b : a, true, 0, ' '}, {na, a, true, 1, '+'}, {nb, b, d, 1, '+'}}); break; }
  case 3: { auto f = fb * fc; traced(f, m, {{"(" + nb + "*" + nc + ")", d ? b * c : c, true, 0, ' '}, {nb, b, d, 1, '*'}, {nc, c, true, 1, '*'}}); break; }
  case 4: { auto f = (fa + fb) * fc; std::string s = "(" + na + "+" + nb + ")"; double ab = d ? a + b : a; traced(f, m, {{"(" + s + "*" + nc + ")", ab * c, true, 0, ' '}, {s, ab, true, 1, '*'}, {na, a, true, 2, '+'}, {nb, b, d, 2, '+'}, {nc, c, true, 1, '*'}}); break; }
  case 5: { auto f = fa + fb * fb; std::string s = "(" + nb + "*" + nb + ")"; traced(f, m, {{"(" + na + "+" + s + ")", d ? a + b * b : a, true, 0, ' '}, {na, a, true, 1, '+'}, {s, b * b, d, 1, '+'}, {nb, b, d, 2, '*'}, {nb, b, d, 2, '*'}}); break; }
  case 6: { auto f = fc * (fa + fb) + fa; std::string s = "(" + na + "+" + nb + ")", p = "(" + nc + "*" + s + ")"; double ab = d ? a + b : a; traced(f, m, {{"(" + p + "+" + na + ")", c * ab + a, true, 0, ' '}, {p, c * ab, true, 1, '+'}, {nc, c, true, 2, '*'}, {s, ab, true, 2, '*'}, {na, a, true, 3, '+'}, {nb, b, d, 3, '+'}, {na, a, true, 1, '+'}}); break; }
  }
}

// ---- parameters ----
static ParameterStore store(int n) { ParameterStore s; static const char *names[3] = {"middle", "z", "a_long_name"}; for (int i = 0; i < n; i++) { Parameter p(rl(nm("v", i), -3, 3)); switch (symx::choose(nm("prior", i).c_str(), 0, i == 0 ? 4 : 1)) { case 0: break; case 1: p.prior = UniformPrior(-1. - i, 2.); break; case 2: p.prior = FixedPrior(); break; case 3: p.prior = GaussianPrior(1., 2.); break; case 4: p.prior = PositivePrior(); break; } s[names[i]] = p; } return s; }
static void judge(const std::string &text, const ParameterStore &s) { auto w = words(text); symx::check(w.size() == 2 + 2 * s.size() && w.front() == "{" && w.back() == "};", "one entry per parameter"); if (w.size() != 2 + 2 * s.size()) return; size_t i = 1; for (auto &p : s) { symx::check(w[i] == "{\"" + p.first + "\",", "name of the parameter"); number(strip(w[i + 1]), p.second.value, "value of the parameter"); i += 2; } }
HARNESS(parameters) {
  told.clear(); auto s = store(symx::choose("n", 1, 3)); judge(pretty_params(s), s); auto pl = lines(pretty_priors(s)); symx::check(pl.size() == 1 + s.size(), "one prior per parameter"); size_t i = 1; for (auto &p : s) { if (i < pl.size()) symx::check(trim(pl[i]) == "\"" + p.first + "\": " + p.second.prior.get_name() || has(p.second.prior.get_name(), "#") || has(pl[i], "#"), "prior of the parameter"), symx::check(has(pl[i], "\"" + p.first + "\":"), "name beside the prior"); i++; }
  auto dl = lines(pretty_param_details(s)); symx::check(dl.size() == s.size(), "one line of details per parameter"); i = 0; for (auto &p : s) { if (i >= dl.size()) break; auto w = words(dl[i++]); auto at = [&](const char *k) { for (size_t j = 0; j + 1 < w.size(); j++) if (w[j] == k) return w[j + 1]; return std::string(); }; symx::check(!w.empty() && w[0] == p.first, "name in the details"); number(at("value:"), p.second.value, "value in the details"); double v = p.second.value; const auto &pr = p.second.prior; bool ok = v >= pr.lower_bound() && v <= pr.upper_bound(); symx::check(at("valid:") == (ok ? "1" : "0"), "validity in the details"); number(strip(at("bounds:")), pr.lower_bound(), "lower bound in the details"); number(strip(w.back()), pr.upper_bound(), "upper bound in the details"); }
}
struct Kern : CovarianceFunction<Kern> { ALBATROSS_DECLARE_PARAMS(length, sigma); Kern() { length = {1.5, PositivePrior()}; sigma = {2., FixedPrior()}; } std::string name() const { return "kern"; } double _call_impl(const double &x, const double &y) const { return sigma.value / (1 + (x - y) * (x - y) / length.value); } };
struct Line : MeanFunction<Line> { ALBATROSS_DECLARE_PARAMS(slope); Line() { slope = {0.5, PositivePrior()}; } std::string name() const { return "line"; } double _call_impl(const double &x) const { return slope.value * x; } };
HARNESS(model_text) { told.clear(); Kern k; Line m; k.set_param_value("length", rl("length", 0.5, 3)); k.set_param_value("sigma", rl("sigma", 0.5, 3)); m.set_param_value("slope", rl("slope", 0.5, 3)); auto t = k.pretty_string(); symx::check(lines(t)[0] == "kern", "name of the covariance function"); judge(t.substr(t.find('\n') + 1), k.get_params()); t = m.pretty_string(); symx::check(lines(t)[0] == "line", "name of the mean function"); judge(t.substr(t.find('\n') + 1), m.get_params()); auto gp = gp_from_covariance_and_mean(k, m, "my_model"); t = gp.pretty_string(); auto ls = lines(t); symx::check(ls.size() > 3 && ls[0] == "model_name: my_model" && ls[1] == "covariance_name: kern" && ls[2] == "mean_name: line", "names of the model's parts"); ParameterStore all = k.get_params(); for (auto &p : m.get_params()) all[p.first] = p.second; size_t at = t.find("params: "); symx::check(at != std::string::npos, "the model's parameters"); if (at != std::string::npos) judge(t.substr(at + 8), all); auto sum = k + IndependentNoise<double>(rl("noise", 0.5, 3)); t = sum.pretty_string(); symx::check(lines(t)[0] == sum.get_name(), "name of a sum"); judge(t.substr(t.find('\n') + 1), sum.get_params()); }

struct Line2 : MeanFunction<Line2> { ALBATROSS_DECLARE_PARAMS(bend); Line2() { bend = {0.5, PositivePrior()}; } std::string name() const { return "bend"; } double _call_impl(const double &x) const { return bend.value * x * x; } };
struct Scale : ScalingFunction { ALBATROSS_DECLARE_PARAMS(factor); Scale() { factor = {1., PositivePrior()}; } std::string get_name() const override { return "scale"; } double _call_impl(const double &x) const { return factor.value * x; } };
HARNESS(composite_text) { // sums and products name their parts in order and print the parameters of both
  told.clear(); Kern k; Line m; Line2 n; k.set_param_value("length", rl("length", 0.5, 3)); m.set_param_value("slope", rl("slope", 0.5, 3)); n.set_param_value("bend", rl("bend", 0.5, 3)); IndependentNoise<double> w(rl("noise", 0.5, 3)); ScalingTerm<Scale> s; s.set_param_value("factor", rl("factor", 0.5, 3)); auto parts = [](const auto &f, const std::string &a, const char *op, const std::string &b) { auto t = f.pretty_string(); symx::check(f.get_name() == "(" + a + op + b + ")" && lines(t)[0] == f.get_name(), "name of a composite"); judge(t.substr(t.find('\n') + 1), f.get_params()); };
  switch (symx::choose("which", 0, 8)) { case 0: parts(m + n, "line", "+", "bend"); break; case 1: parts(n * m, "bend", "*", "line"); break; case 2: parts((m + n) * m, "(line+bend)", "*", "line"); break; case 3: parts(k + w, "kern", "+", w.get_name()); break; case 4: parts(w * k, w.get_name(), "*", "kern"); break; case 5: parts(s * k, "scale", "*", "kern"); break; case 6: parts(k * s, "kern", "*", "scale"); break;
  case 7: { auto q = measurement_only(k + w); symx::check(q.get_name() == "measurement[" + (k + w).get_name() + "]", "name of a measurement's covariance"); auto t = q.pretty_string(); judge(t.substr(t.find('\n') + 1), q.get_params()); break; }
  default: { SquaredExponential<EuclideanDistance> a; Exponential<AngularDistance> b; Matern32<RadialDistance> c; Matern52<EuclideanDistance> d; symx::check(a.get_name() == "squared_exponential[euclidean_distance]" && b.get_name() == "exponential[angular_distance]" && c.get_name() == "matern_32[radial_distance]" && d.get_name() == "matern_52[euclidean_distance]", "names of the radial covariances and their distances"); } }
}

// ---- RANSAC ----
static void judge(const std::vector<std::string> &l, size_t &i, const RansacIteration<int> &it) { auto next = [&]() { return i < l.size() ? l[i++] : std::string(); }; auto w = words(next()); symx::check(w.size() == 1 + it.candidates.size() && w[0] == "CANDIDATES:", "candidates"); for (size_t k = 0; k < it.candidates.size() && k + 1 < w.size(); k++) symx::check(w[k + 1] == std::to_string(it.candidates[k]) + ",", "each candidate"); auto groups = [&](const char *head, const std::map<int, double> &m) { symx::check(trim(next()) == head, head); for (auto &p : m) { auto v = words(next()); symx::check(v.size() == 3 && v[0] == std::to_string(p.first), "group"); if (v.size() == 3) number(v[2], p.second, "metric of the group"); } }; groups("INLIERS:", it.inliers); groups("OUTLIERS:", it.outliers); w = words(next()); symx::check(w.size() == 2 && w[0] == "CONSENSUS_METRIC:", "consensus metric"); if (w.size() == 2) number(w[1], it.consensus_metric_value, "value of the consensus metric"); }
static RansacIteration<int> iteration(int t) { RansacIteration<int> r; static const int g[3] = {7, 3, 12}; for (int i = 0; i < 3; i++) { int where = t ? (i + t) % 4 : symx::choose(nm("where", t, i).c_str(), 0, 3); if (where == 0) r.candidates.push_back(g[i]); else if (where == 1) r.inliers[g[i]] = rl(nm("m", t, i), -3, 3); else if (where == 2) r.outliers[g[i]] = rl(nm("m", t, i), -3, 3); } if (t || symx::choose(nm("scored", t).c_str(), 0, 1)) r.consensus_metric_value = rl(nm("c", t), -3, 3); return r; }
HARNESS(ransac) { told.clear(); RansacOutput<int> o; int n = symx::choose("iterations", 0, 2); o.best = iteration(0); for (int t = 0; t < n; t++) o.iterations.push_back(t ? iteration(t) : o.best); int code = symx::choose("code", -1, 4); o.return_code = ransac_return_code_t(code); static const char *names[6] = {"invalid", "success", "no_consensus", "invalid_arguments", "exceeded_max_failed_candidates", "failure"}; std::ostringstream os; os << o; auto l = lines(os.str()); size_t i = 0; for (int t = 0; t < n; t++) { symx::check(i < l.size() && l[i] == "==== Iteration " + std::to_string(t) + "====", "heading of the iteration"); i++; judge(l, i, o.iterations[size_t(t)]); } symx::check(i < l.size() && l[i] == "==== Best ====", "heading of the best"); i++; judge(l, i, o.best); symx::check(i + 1 == l.size() && l[i] == std::string("RETURN CODE: ") + names[code + 1], "return code"); }

// ---- datasets ----
struct Silent { int k; };
HARNESS(datasets) { told.clear(); int n = symx::choose("n", 0, 3); bool shown = symx::choose("shown", 0, 1); Vec t = vec("t", n), v = vec("v", n, 0, 4); MarginalDistribution y(t, v); std::ostringstream os, other; auto *old = std::cout.rdbuf(other.rdbuf()); std::vector<double> f; for (int i = 0; i < n; i++) f.push_back(rl(nm("f", i), -4, 4)); if (shown) os << RegressionDataset<double>(f, y); else os << RegressionDataset<Silent>(std::vector<Silent>(size_t(n)), y); std::cout.rdbuf(old); symx::check(other.str().empty(), "nothing goes to another stream"); auto l = lines(os.str()); if (n == 0) { symx::check(os.str().empty(), "nothing to print"); return; } symx::check(int(l.size()) == n, "one line per entry"); for (int i = 0; i < n && i < int(l.size()); i++) { auto w = words(l[size_t(i)]); symx::check(w.size() == 4 && w[2] == "+/-", "feature, target and deviation"); if (w.size() != 4) return; if (shown) number(w[0], f[size_t(i)], "feature"); else symx::check(w[0] == std::to_string(i), "index of the entry"); number(w[1], t[i], "target"); number(w[3], std::sqrt(v[i]), "deviation of the target"); } std::ostringstream om; double x = rl("x", -3, 3); om << as_measurement(x); symx::check(om.str().substr(0, 5) == "Meas[" && om.str().back() == ']', "measurement"); number(strip(om.str().substr(5)), x, "value of the measurement"); }

// ---- tuner reports ----
HARNESS(greedy_report) { // the report lists every evaluation, and does not change the result
  told.clear(); int np = symx::choose("np", 1, 2), its = symx::choose("iterations", 1, 3 - np); ParameterStore s; s["a"] = Parameter(rl("a", -1, 1), UniformPrior(-1, 1)); if (np == 2) s["b"] = Parameter(rl("b", -2, 2), UniformPrior(-2, 2)); std::vector<double> f; std::vector<ParameterStore> at; auto obj = [&](const ParameterStore &p) { at.push_back(p); f.push_back(rl(nm("f", f.size()), -5, 5)); return f.back(); }; std::ostringstream os; auto r = greedy_tune(obj, s, 1, size_t(its), nullptr, &os); auto l = lines(os.str()); std::vector<std::vector<std::string>> ev; std::vector<double> bests; bool on = false; for (auto &x : l) { if (has(x, "EVALUATIONS:")) { on = true; continue; } if (has(x, "=====")) on = false; auto w = words(x); if (on) ev.push_back(w); if (w.size() == 3 && w[0] == "BEST_VALUE") { long k = token_id(w[2]); symx::check(k >= 0, "best value"); if (k >= 0) bests.push_back(told[size_t(k)]); } }
  symx::check(ev.size() == f.size(), "every evaluation is reported"); double best = HUGE_VAL; for (size_t i = 0; i < ev.size() && i < f.size(); i++) { auto &w = ev[i]; symx::check(w.size() >= 5 && at[i].count(w[0]), "parameter, value and objective"); if (w.size() < 5 || !at[i].count(w[0])) return; number(w[2], at[i][w[0]].value, "value tried"); number(w[4], f[i], "objective there"); bool better = f[i] < best; if (better) best = f[i]; symx::check((w.size() > 5) == better, "marked when the best so far"); } symx::check(int(bests.size()) == np * its, "best value after each pass"); if (!bests.empty()) eq(bests.back(), best, "best value reported last"); size_t p = os.str().rfind("{\n"); symx::check(p != std::string::npos, "best parameters"); if (p != std::string::npos) { std::string t = os.str().substr(p); judge(t.substr(0, t.find("};") + 2), r); }
}
HARNESS(optimizer_report) { told.clear(); nlopt::settings().steps = 2; ParameterStore s; s["a"] = Parameter(rl("a", -1, 1), UniformPrior(-1, 1)); s["b"] = Parameter(rl("b", -1, 1), FixedPrior()); std::vector<double> f; auto obj = [&](const ParameterStore &) { f.push_back(rl(nm("f", f.size()), -5, 5)); return f.back(); }; std::ostringstream os; GenericTuner t(s, os); auto r = t.tune(obj); nlopt::settings().steps = 1; double best = f.at(0); for (double x : f) if (x < best) best = x; std::string text = os.str(); size_t p = text.rfind("minimum: "), q = text.rfind("{\n"); symx::check(p != std::string::npos && q != std::string::npos && has(text, "nlopt termination code: "), "report of the optimiser"); if (p == std::string::npos || q == std::string::npos) return; std::string m; for (p += 9; p < text.size() && text[p] != '\n'; p++) m.push_back(text[p]); number(m, best, "minimum reported"); std::string tail = text.substr(q); judge(tail.substr(0, tail.find("};") + 2), r); }

// ---- eigen directions ----
struct Direction { double value; std::vector<std::pair<int, double>> coef; };
static bool directions(const std::string &s, double &lo, double &hi, std::vector<Direction> &r) { for (auto &l : lines(s)) { auto w = words(l); auto get = [&](const std::string &c) { long k = token_id(c); symx::check(k >= 0, "a number"); return k >= 0 ? told[size_t(k)] : 0.; }; if (w.size() == 2 && w[0] == "MIN:") lo = get(w[1]); else if (w.size() == 2 && w[0] == "MAX:") hi = get(w[1]); else if (w.size() == 3 && w[0] == "eigen") r.push_back({get(w[2]), {}}); else if (w.size() == 2 && !r.empty() && w[1][0] == 'f') r.back().coef.push_back({std::atoi(w[1].c_str() + 1), get(w[0])}); else { symx::check(false, "line of the report"); return false; } } return true; }
HARNESS(eigen) {
  told.clear(); static const int ns[4] = {2, 3, 5, 8}; int n = ns[symx::choose("n", 0, 3)], kind = symx::choose("kind", 0, 2); bool large = symx::choose("large", 0, 1); int count = symx::choose("all", 0, 1) ? n : 1; Mat M(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) M(i, j) = kind == 0 ? (i == j ? double((i * 3) % n) - 1.5 : 0.) : kind == 1 ? 1. / (1 + (i > j ? i - j : j - i)) + (i == j ? 0.25 * i : 0) : double((i + j) % 3) + (i == j ? 0.5 : 0); std::vector<std::string> f; for (int i = 0; i < n; i++) f.push_back(std::string("f") + char('0' + i)); double thr = rl("threshold", 0, 1.1); std::ostringstream os; double lo = 0, hi = 0; std::vector<Direction> all, some;
  if (large) print_large_eigen_directions(M, f, size_t(count), -1., &os); else print_small_eigen_directions(M, f, size_t(count), -1., &os); if (!directions(os.str(), lo, hi, all)) return; symx::check(int(all.size()) == count, "as many directions as asked for"); double rlo = 0, rhi = 0; std::vector<double> vals; for (size_t k = 0; k < all.size(); k++) { auto &d = all[k]; symx::check(int(d.coef.size()) == n, "a coefficient per feature"); Vec v = Vec::Zero(n); for (auto &c : d.coef) v[c.first] += c.second; eq(v.dot(v), 1, "unit length", 1e-6); Vec r = M * v - d.value * v; for (int i = 0; i < n; i++) eq(r[i], 0, "an eigen direction", 1e-6); for (size_t i = 1; i < d.coef.size(); i++) symx::check(std::fabs(d.coef[i - 1].second) >= std::fabs(d.coef[i].second), "largest coefficients first"); for (size_t j = 0; j < k; j++) { Vec u = Vec::Zero(n); for (auto &c : all[j].coef) u[c.first] += c.second; eq(u.dot(v), 0, "different directions", 1e-6); } if (k) symx::check(large ? all[k - 1].value >= d.value : all[k - 1].value <= d.value, large ? "largest first" : "smallest first"); } if (!all.empty()) eq(all[0].value, large ? hi : lo, large ? "starts at the largest" : "starts at the smallest", 1e-9); (void)rlo; (void)rhi; if (count == n) { double tr = 0; for (auto &d : all) tr += d.value; eq(tr, M.trace(), "all the eigen values", 1e-6); eq(all.back().value, large ? lo : hi, "ends at the other end", 1e-9); }
  std::ostringstream ot; if (large) print_large_eigen_directions(M, f, size_t(count), thr, &ot); else print_small_eigen_directions(M, f, size_t(count), thr, &ot); double l2 = 0, h2 = 0; if (!directions(ot.str(), l2, h2, some)) return; eq(l2, lo, "smallest value"); eq(h2, hi, "largest value"); symx::check(some.size() == all.size(), "the same directions"); for (size_t k = 0; k < some.size() && k < all.size(); k++) { eq(some[k].value, all[k].value, "the same values"); size_t i = 0; for (auto &c : all[k].coef) if (std::fabs(c.second) > thr) { symx::check(i < some[k].coef.size() && some[k].coef[i].first == c.first, "coefficients above the threshold"); if (i < some[k].coef.size()) eq(some[k].coef[i].second, c.second, "value of the coefficient"); i++; } symx::check(i == some[k].coef.size(), "nothing below the threshold"); }
}
