// @bounds: 1 to 4 walkers, up to 3 parameters (one of them fixed), up to 3 iterations, every parameter value and every log probability (finite or minus infinity) symbolic; one or two whole sampler iterations with every draw; 12 walkers of 6 parameters
// @assume: how a number is spelled (and its rounding to six decimals) is outside: each number written becomes a token which stands for it
// @flags: -D_GLIBCXX_EXTERN_TEMPLATE=0
#include "tokens.hpp"
#include "draws.hpp"
namespace hx { inline int nr = 0, nz = 0; }
namespace std {
template <> template <> inline size_t uniform_int_distribution<size_t>::operator()<symx_engine>(symx_engine &, const uniform_int_distribution<size_t>::param_type &p) { hx::nz++; return p.a() + size_t(hx::nz * 7) % (p.b() - p.a() + 1); }
template <> template <> inline double uniform_real_distribution<double>::operator()<symx_engine>(symx_engine &, const uniform_real_distribution<double>::param_type &p) { static const double some[4] = {0.5, 0.25, 0.75, 0.0625}; hx::nr++; return p.a() + (p.b() - p.a()) * some[hx::nr % 4]; }
}
#define to_string symx_to_string
#define stod symx_stod
#define ALBATROSS_CEREAL_SUITESPARSE_H
#define ALBATROSS_CEREAL_SERIALIZABLE_SPQR_H
#include <albatross/Core>
#include <albatross/GP>
#include <albatross/Samplers>
#undef to_string
#undef stod
#include "common.hpp"
using namespace albatross; using namespace hx;
static void eq(double a, double b, const char *l) { symx::check_eq(a, b, l, 1e-9); }
static std::vector<std::string> cut(const std::string &s, char at) { std::vector<std::string> r(1); for (char c : s) if (c == at) r.emplace_back(); else r.back().push_back(c); return r; }
static void number(const std::string &c, double want, const char *l) { long k = token_id(c); symx::check(k >= 0, l); if (k >= 0) { if (std::isinf(want)) symx::check(told[size_t(k)] == want, l); else eq(told[size_t(k)], want, l); } }
static std::ostringstream *mute = new std::ostringstream; // (what is printed about bad cells)
// parameters: "b" tunable, "fix" fixed, "a" tunable and bounded
static ParameterStore store(int np, bool bounded = false) { ParameterStore s; s["b"] = Parameter(rl("vb", -3, 3)); if (np > 1) { s["a"] = Parameter(rl("va", 1, 3)); if (bounded) s["a"].prior = UniformPrior(0.5, 4.); } if (np > 2) { s["c_fix"] = Parameter(rl("vfix", -3, 3)); s["c_fix"].prior = FixedPrior(); } return s; }
static EnsembleSamplerState state(int walkers, int dim, const char *tag, double lo = 1, double hi = 3, bool inf = false) { EnsembleSamplerState e; for (int i = 0; i < walkers; i++) { SamplerState w; for (int d = 0; d < dim; d++) w.params.push_back(rl(nm(tag, i, d), lo, hi)); w.log_prob = inf && symx::choose(nm((std::string(tag) + "inf").c_str(), i).c_str(), 0, 1) ? -HUGE_VAL : rl(nm((std::string(tag) + "l").c_str(), i), -5, 5); w.accepted = true; e.push_back(w); } return e; }
static int dims(int np) { return np > 1 ? 2 : 1; }
// the rows of one state, whose parameters come in the order of their names
static void rows(const std::vector<std::string> &lines, size_t from, const std::vector<std::string> &head, const ParameterStore &s, const EnsembleSamplerState &e, size_t iteration) {
  for (size_t i = 0; i < e.size(); i++) { symx::check(from + i < lines.size(), "one line per walker"); if (from + i >= lines.size()) return; auto c = cut(lines[from + i], ','); symx::check(c.size() == head.size(), "as many cells as columns"); if (c.size() != head.size()) return; size_t t = 0;
    symx::check(c[0] == std::to_string(iteration), "iteration of the line"); number(c[1], e[i].log_prob, "log probability of the walker"); symx::check(c[2] == std::to_string(i), "index of the walker");
    size_t k = 3; for (const auto &p : s) { bool fixed = p.first == "c_fix"; double want = fixed ? p.second.value : e[i].params[t++]; symx::check(head[k] == p.first, "column of the parameter"); number(c[k], want, fixed ? "fixed parameters keep their value" : "parameter of the walker"); k++; } }
}
HARNESS(rows) { // the callback writes every walker of every iteration
  told.clear(); int np = symx::choose("np", 1, 3), w = symx::choose("walkers", 1, 3), its = symx::choose("iterations", 0, 2); auto s = store(np); auto os = std::make_shared<std::ostringstream>(); std::shared_ptr<std::ostream> out = os; CsvWritingCallback cb(s, out); std::vector<EnsembleSamplerState> es; for (int t = 0; t <= its; t++) { es.push_back(state(w, dims(np), nm("e", t).c_str(), -3, 3, t == 0 && w < 3)); cb(size_t(t), es.back()); }
  auto lines = cut(os->str(), '\n'); symx::check(lines.back().empty(), "ends with a line break"); lines.pop_back(); symx::check(int(lines.size()) == 1 + w * (its + 1), "one header, one line per walker and iteration"); auto head = cut(lines[0], ','); symx::check(int(head.size()) == 3 + np && head[0] == "iteration" && head[1] == "log_probability" && head[2] == "ensemble_index", "columns"); if (int(head.size()) != 3 + np) return; for (int t = 0; t <= its; t++) rows(lines, size_t(1 + w * t), head, s, es[size_t(t)], size_t(t));
}
HARNESS(read_back) { // what was written last is read back
  told.clear(); int np = symx::choose("np", 1, 3), w = symx::choose("walkers", 1, 3), its = symx::choose("iterations", 0, 2); auto s = store(np, true); auto os = std::make_shared<std::ostringstream>(); std::shared_ptr<std::ostream> out = os; CsvWritingCallback cb(s, out); EnsembleSamplerState e; for (int t = 0; t <= its; t++) { e = state(w, dims(np), nm("e", t).c_str()); cb(size_t(t), e); }
  std::istringstream is(os->str()); auto r = initial_params_from_csv(s, is); symx::check(int(r.size()) == w, "the walkers of the last iteration"); for (size_t i = 0; i < r.size() && i < e.size(); i++) { symx::check(r[i].size() == e[i].params.size(), "tunable parameters only"); for (size_t d = 0; d < r[i].size() && d < e[i].params.size(); d++) eq(r[i][d], e[i].params[d], "parameters read back"); }
  std::istringstream again(os->str()); auto m = initial_params_from_csv(again); symx::check(int(m.size()) == w, "the last iteration's lines"); for (size_t i = 0; i < m.size() && i < e.size(); i++) { symx::check(int(m[i].size()) == np, "every parameter by name"); size_t d = 0; for (const auto &p : s) { symx::check(m[i].count(p.first) == 1, "parameter by name"); if (m[i].count(p.first)) eq(m[i][p.first], p.first == "c_fix" ? p.second.value : e[i].params[d++], "value by name"); } }
}
HARNESS(any_order) { // a parameter's column may be anywhere behind the first three; values are put within bounds
  told.clear(); auto s = store(3, true); int perm = symx::choose("perm", 0, 5); static const int P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; static const char *names[3] = {"a", "b", "c_fix"}; double v[2][3]; std::string text = "iteration,log_probability,ensemble_index"; for (int k = 0; k < 3; k++) text += std::string(",") + names[P[perm][k]]; text += "\n";
  int first = symx::choose("first_iteration", 0, 1); for (int i = 0; i < 2; i++) { text += (first ? std::string("17") : std::string("3")) + "," + token(-1.5) + "," + std::to_string(i); for (int k = 0; k < 3; k++) v[i][k] = rl(nm("v", i, k), -6, 6); for (int k = 0; k < 3; k++) text += "," + token(v[i][P[perm][k]]); text += "\n"; }
  std::istringstream is(text); auto r = initial_params_from_csv(s, is); symx::check(r.size() == 2, "both walkers"); for (size_t i = 0; i < r.size() && i < 2; i++) { symx::check(r[i].size() == 2, "tunable parameters"); if (r[i].size() != 2) return; double a = v[i][0]; eq(r[i][0], a < 0.5 ? 0.5 : a > 4. ? 4. : a, "bounded value, any column order"); eq(r[i][1], v[i][1], "value, any column order"); }
}
HARNESS(earlier_iterations) { // only the last iteration counts, whatever the number of walkers in each
  told.clear(); ParameterStore s; s["x"] = Parameter(1.); int n[3] = {symx::choose("n0", 1, 2), symx::choose("n1", 0, 2), symx::choose("n2", 0, 2)}; std::string text = "iteration,log_probability,ensemble_index,x\n"; std::vector<double> last; static const char *its[3] = {"0", "5", "10"}; for (int t = 0; t < 3; t++) { if (n[t]) last.clear(); for (int i = 0; i < n[t]; i++) { last.push_back(rl(nm("x", t, i), -5, 5)); text += std::string(its[t]) + "," + token(0.5) + "," + std::to_string(i) + "," + token(last.back()) + "\n"; } }
  std::istringstream is(text); auto r = initial_params_from_csv(s, is); symx::check(r.size() == last.size(), "walkers of the last iteration only"); for (size_t i = 0; i < r.size() && i < last.size(); i++) eq(r[i].at(0), last[i], "of the last iteration");
}
HARNESS(bad_cell) { told.clear(); auto *old = std::cout.rdbuf(mute->rdbuf()); int col = symx::choose("col", 0, 1); double v = rl("v", -5, 5); std::string text = "iteration,log_probability,ensemble_index,x,y\n1," + token(1.) + ",0," + (col == 0 ? std::string("oops") : token(v)) + "," + (col == 1 ? std::string("nothing") : token(v)) + "\n"; std::istringstream is(text); auto m = initial_params_from_csv(is); std::cout.rdbuf(old); symx::check(m.size() == 1, "a line with a bad cell is a line"); if (m.size() != 1) return; double bad = m[0][col == 0 ? "x" : "y"], good = m[0][col == 0 ? "y" : "x"]; symx::check(bad != bad, "a cell which is no number is not a number"); eq(good, v, "the other cells are read"); }
HARNESS(refused) { told.clear(); symx::check(true, "reached"); int kind = symx::choose("kind", 0, 5); static const char *heads[6] = {"iteration,log_probability,ensemble_index,x", "iter,log_probability,ensemble_index,x", "iteration,ensemble_index,log_probability,x", "iteration,log_probability,index,x", "iteration,log_probability,ensemble_index,x", ""}; std::string text = heads[kind]; text += kind == 5 ? "" : "\n"; if (kind != 5) text += "0,1,0,2" + std::string(kind == 4 ? ",3" : "") + "\n"; if (kind) symx_allow_abort_(1); std::istringstream is(text); auto m = initial_params_from_csv(is); symx::check(kind == 0, "a malformed file is refused"); }
HARNESS(best) { // the best state seen so far
  told.clear(); int np = symx::choose("np", 2, 3); auto s = store(np); auto os = std::make_shared<std::ostringstream>(); std::shared_ptr<std::ostream> out = os; MaximumLikelihoodTrackingCallback cb(s, out); symx::check(cb.max_ll == -HUGE_VAL, "nothing seen"); double best = -HUGE_VAL; std::vector<double> at; size_t printed = 0; for (int t = 0; t < 2; t++) { auto e = state(2, 2, nm("e", t).c_str(), -3, 3, true); cb(size_t(t), e); for (auto &w : e) if (w.log_prob > best) { best = w.log_prob; at = w.params; printed++; }
    if (best == -HUGE_VAL) { symx::check(cb.max_ll == best, "nothing possible seen"); eq(cb.param_store["a"].value, s["a"].value, "parameters kept"); continue; } eq(cb.max_ll, best, "largest log probability so far"); eq(cb.param_store["a"].value, at[0], "parameters of the best"); eq(cb.param_store["b"].value, at[1], "parameters of the best, second"); if (np == 3) eq(cb.param_store["c_fix"].value, s["c_fix"].value, "fixed parameter of the best"); }
  size_t count = 0; std::string text = os->str(), key = "LL: "; for (size_t p = text.find(key); p != std::string::npos; p = text.find(key, p + 1)) count++; symx::check(count == printed, "reported once per improvement"); if (printed) { size_t p = text.rfind(key); std::string tok; for (p += key.size(); p < text.size() && text[p] != '\n'; p++) tok.push_back(text[p]); number(tok, best, "reported value"); }
}
struct Kern : CovarianceFunction<Kern> { ALBATROSS_DECLARE_PARAMS(length, variance); Kern() { length = {1.5, UniformPrior(0.01, 90.)}; variance = {2., FixedPrior()}; } std::string name() const { return "kern"; } double _call_impl(const double &x, const double &y) const { return variance.value / (1 + (x - y) * (x - y) / length.value); } };
HARNESS(while_sampling) { // what a sampler reports while it runs is what it returns
  told.clear(); nr = nz = 0; auto gp = gp_from_covariance(Kern()); std::shared_ptr<std::ostringstream> os = std::make_shared<std::ostringstream>(); std::shared_ptr<std::ostream> out = os; auto cb = get_csv_writing_callback(gp, out); double l0 = rl("l0", -3, 3), l1 = rl("l1", -3, 3); auto f = [&](const std::vector<double> &p) { return l0 - l1 * p[0]; }; std::default_random_engine g; EnsembleSamplerState e; for (int i = 0; i < 3; i++) { double x = 1 + i; e.push_back({{x}, f({x}), true}); } int its = symx::choose("iterations", 0, 1); auto r = ensemble_sampler(f, e, size_t(its), g, cb);
  auto lines = cut(os->str(), '\n'); lines.pop_back(); symx::check(int(lines.size()) == 1 + 3 * (its + 1) && int(r.size()) == its + 1, "every state is written"); auto head = cut(lines[0], ','); symx::check(head.size() == 5 && head[3] == "length" && head[4] == "variance", "the model's parameters"); if (head.size() != 5) return; for (int t = 0; t <= its; t++) for (int i = 0; i < 3; i++) { auto c = cut(lines[size_t(1 + 3 * t + i)], ','); if (c.size() != 5) return; symx::check(c[0] == std::to_string(t) && c[2] == std::to_string(i), "labels"); number(c[1], r[t][i].log_prob, "log probability returned"); number(c[3], r[t][i].params[0], "parameter returned"); number(c[4], 2., "fixed parameter of the model"); }
  std::istringstream is(os->str()); auto back = initial_params_from_csv(gp.get_params(), is); symx::check(back.size() == 3, "can be resumed"); for (size_t i = 0; i < back.size() && i < 3; i++) { double v = r[its][i].params[0]; eq(back[i].at(0), v < 0.01 ? 0.01 : v > 90. ? 90. : v, "resumes where it stopped"); }
}
HARNESS(large) { // more walkers, more parameters
  told.clear(); int w = 12, np = 6; ParameterStore s; static const char *n[6] = {"delta", "alpha", "zeta", "beta", "gamma", "eps"}; for (int k = 0; k < np; k++) { s[n[k]] = Parameter(0.25 * k); if (k == 2) s[n[k]].prior = FixedPrior(); } auto os = std::make_shared<std::ostringstream>(); std::shared_ptr<std::ostream> out = os; CsvWritingCallback cb(s, out); EnsembleSamplerState e; for (int t = 0; t < 11; t++) { e.clear(); for (int i = 0; i < w; i++) { SamplerState x; for (int d = 0; d < np - 1; d++) x.params.push_back(t == 10 && (i * 5 + d) % 13 == 0 ? rl(nm("x", i, d), -4, 4) : 0.125 * (i * 5 + d) - t); x.log_prob = -0.5 * i - t; x.accepted = true; e.push_back(x); } cb(size_t(t), e); }
  auto lines = cut(os->str(), '\n'); lines.pop_back(); symx::check(int(lines.size()) == 1 + 11 * w, "lines of many"); std::istringstream is(os->str()); auto r = initial_params_from_csv(s, is); symx::check(int(r.size()) == w, "many walkers"); for (size_t i = 0; i < r.size() && i < e.size(); i++) { symx::check(r[i].size() == 5, "many parameters"); for (size_t d = 0; d < r[i].size() && d < 5; d++) eq(r[i][d], e[i].params[d], "many parameters read back"); }
}
