// @bounds: up to 3 parameters, each with any of 8 prior types, symbolic values and bounds; packed vectors of every value; composites of up to 4 parts; 13 parameters of three kinds
// @assume: lower bounds of uniform priors are below upper ones; packed values of log scale parameters between -3 and 3
#include <albatross/GP>
#include <albatross/Ransac>
#include <albatross/LeastSquares>
#include <albatross/CovarianceFunctions>
#include "common.hpp"
using namespace albatross; using namespace hx;
struct Model3 { int kind[3]; double v[3], lo[3], hi[3]; bool fixed[3], logs[3]; std::vector<std::string> name; ParameterStore store; };
static const double INF = HUGE_VAL;
static Parameter param(int kind, double v, int i, double &lo, double &hi, bool &fixed, bool &logs) {
  lo = -INF; hi = INF; fixed = logs = false;
  switch (kind) {
  case 0: return Parameter(v);
  case 1: fixed = true; return Parameter(v, FixedPrior());
  case 2: lo = 0; return Parameter(v, NonNegativePrior());
  case 3: { double a = rl(nm("lo", i), -4, 3), b = rl(nm("hi", i), -3, 4); symx::assume(a < b); lo = a; hi = b; return Parameter(v, UniformPrior(a, b)); }
  case 4: lo = 0.25; hi = 4; logs = true; return Parameter(v, LogScaleUniformPrior(0.25, 4)); 
  case 5: lo = std::numeric_limits<double>::epsilon(); return Parameter(v, PositivePrior());
  case 6: return Parameter(v, GaussianPrior(1, 2));
  case 7: lo = std::numeric_limits<double>::epsilon(); return Parameter(v, LogNormalPrior(1, 2));
  default: return Parameter(v); }
}
static Model3 make(int n, int kinds, bool valid) {
  static const char *names[3] = {"b", "a_1", "c"}; static const int order[3] = {1, 0, 2}; Model3 m; for (int k = 0; k < n; k++) { int i = order[k]; if (n == 1) i = 0; if (n == 2) i = 1 - k; int kind = m.kind[i] = symx::choose(nm("kind", i).c_str(), 0, kinds - 1); m.v[i] = rl(nm("v", i), -5, 5); Parameter p = param(kind, m.v[i], i, m.lo[i], m.hi[i], m.fixed[i], m.logs[i]); if (valid) { symx::assume(m.v[i] >= m.lo[i]); symx::assume(m.v[i] <= m.hi[i]); } m.store[names[i]] = p; m.name.push_back(names[i]); }
  std::sort(m.name.begin(), m.name.end()); return m;
}
static int idx(const std::string &s) { return s == "b" ? 0 : s == "a_1" ? 1 : 2; }
static double clampv(double x, double lo, double hi) { return x < lo ? lo : x > hi ? hi : x; }
static void same(const ParameterStore &a, const ParameterStore &b, const char *l) { symx::check(a.size() == b.size(), l); for (auto &kv : a) { symx::check(b.count(kv.first) == 1, l); if (!b.count(kv.first)) continue; symx::check(b.at(kv.first).value == kv.second.value, l); symx::check(b.at(kv.first).prior == kv.second.prior, l); } }
struct Holder : public ParameterHandlingMixin { Holder(const ParameterStore &s) : ParameterHandlingMixin(s) {} };
HARNESS(pack) {
#ifdef SYMX_THOROUGH
  int n = symx::choose("n", 1, 3), kinds = n == 3 ? 6 : 8;
#else
  int n = symx::choose("n", 1, 3), kinds = n == 3 ? 5 : 8;
#endif
  auto m = make(n, kinds, true); Holder h(m.store); for (int via = 0; via < 2; via++) { TunableParameters t = via ? h.get_tunable_parameters() : get_tunable_parameters(m.store); size_t k = 0; for (auto &s : m.name) { int i = idx(s); if (m.fixed[i]) continue; symx::check(k < t.names.size() && t.names[k] == s, "free parameters in the order of their names"); if (k >= t.names.size()) return; double f = m.logs[i] ? std::log(m.v[i]) : m.v[i]; symx::check_eq(t.values[k], f, "packed value"); if (m.logs[i]) { symx::check_eq(t.lower_bounds[k], std::log(m.lo[i]), "packed lower bound"); symx::check_eq(t.upper_bounds[k], std::log(m.hi[i]), "packed upper bound"); } else symx::check(t.lower_bounds[k] == m.lo[i] && t.upper_bounds[k] == m.hi[i], "packed bounds"); k++; }
    symx::check(k == t.names.size() && k == t.values.size() && k == t.lower_bounds.size() && k == t.upper_bounds.size(), "only free parameters are packed"); auto back = set_tunable_params_values(m.store, t.values); symx::check(back.size() == m.store.size(), "size"); for (auto &kv : m.store) { symx::check_eq(back.at(kv.first).value, kv.second.value, "unpacking what was packed"); symx::check(back.at(kv.first).prior == kv.second.prior, "priors survive"); } }
  symx::check(params_are_valid(m.store) && h.params_are_valid(), "valid parameters");
}
HARNESS(unpack) {
  int n = symx::choose("n", 1, 3); auto m = make(n, n == 3 ? 5 : 8, false); int free = 0; for (auto &s : m.name) free += !m.fixed[idx(s)]; std::vector<double> x; for (int i = 0; i < free; i++) x.push_back(rl(nm("x", i), -3, 3)); bool force = symx::choose("force", 0, 1); Holder h(m.store); if (force) h.set_tunable_params_values(x); else h.set_tunable_params_values(x, false);
  for (int via = 0; via < 2; via++) { ParameterStore out = via ? h.get_params() : set_tunable_params_values(m.store, x, force); int k = 0; symx::check(out.size() == m.store.size(), "size"); for (auto &s : m.name) { int i = idx(s); symx::check(out.at(s).prior == m.store.at(s).prior, "priors survive"); if (m.fixed[i]) { symx::check(out.at(s).value == m.v[i], "fixed parameters never change"); continue; } double v = m.logs[i] ? std::exp(x[k]) : x[k]; k++; symx::check_eq(out.at(s).value, force ? clampv(v, m.lo[i], m.hi[i]) : v, "unpacked value"); if (force) symx::check(out.at(s).is_valid(), "forced within bounds"); } }
}
HARNESS(unpack_too_many) { ParameterStore s; s["a"] = Parameter(1.); s["b"] = Parameter(2., FixedPrior()); symx::check(get_tunable_parameters(s).names.size() == 1, "one free parameter"); symx_allow_abort_(1); set_tunable_params_values(s, {1., 2.}); symx::check(false, "too many packed values are refused"); }
HARNESS(pack_invalid) { auto m = make(1, 8, false); double v = m.v[0]; bool inside = v >= m.lo[0] && v <= m.hi[0]; symx::check(m.store.at("b").within_bounds() == inside && m.store.at("b").is_valid() == inside && params_are_valid(m.store) == inside, "values outside bounds are invalid"); symx::check(m.store.at("b").is_fixed() == m.fixed[0], "fixed"); symx::check_eq(ensure_value_within_bounds(m.store.at("b"), v), clampv(v, m.lo[0], m.hi[0]), "clamped value"); if (!inside && !m.fixed[0]) { symx_allow_abort_(1); get_tunable_parameters(m.store); symx::check(false, "invalid values are not packed"); } }
struct Declared : public ParameterHandlingMixin { ALBATROSS_DECLARE_PARAMS(b, a_1, c) };
template <class H> static void setters(H &h, const Model3 &m) {
  static const char *all[3] = {"a_1", "b", "c"}; std::string s = all[symx::choose("which", 0, 2)]; int i = idx(s); double v = rl("new", -5, 5); double lo, hi; bool f, g; int how = symx::choose("how", 0, 8); ParameterStore before = h.get_params(), expect = before; same(before, m.store, "parameters as given");
  Parameter p = param(symx::choose("newkind", 0, 4), v, 7, lo, hi, f, g);
  switch (how) {
  case 0: unchecked_set_param(s, p, &h); expect[s] = p; break;
  case 1: static_cast<ParameterHandlingMixin &>(h).set_param(s, v); expect[s].value = v; break;
  case 2: h.set_param_value(s, v); expect[s].value = v; break;
  case 3: h.set_prior(s, p.prior); expect[s].prior = p.prior; break;
  case 4: { ParameterStore in; in[s] = p; h.set_params(in); expect[s] = p; break; }
  case 5: { std::map<ParameterKey, ParameterValue> in; in[s] = v; in[s == "b" ? "c" : "b"] = 1.5; h.set_param_values(in); expect[s].value = v; expect[s == "b" ? "c" : "b"].value = 1.5; break; }
  case 6: { ParameterStore in; in[s] = p; in["zz"] = Parameter(1.); symx::check(!set_params_if_exists(in, &h), "unknown names are reported"); expect[s] = p; break; }
  case 7: { std::map<ParameterKey, ParameterValue> in; in["aa"] = 3; in[s] = v; h.set_param_values_if_exists(in); expect[s].value = v; break; }
  case 8: { bool a = set_param_if_exists("nope", p, &h), b = set_param_if_exists(s, p, &h), c = set_param_value_if_exists("", v, &h); symx::check(!a && b && !c, "reports whether the parameter exists"); expect[s] = p; break; }
  }
  same(h.get_params(), expect, "setting changes exactly the named parameters"); symx::check(h.get_param_value(s) == h.get_params().at(s).value, "value by name");
}
static Model3 fixed3() { Model3 m; static const char *names[3] = {"b", "a_1", "c"}; for (int i = 0; i < 3; i++) { m.v[i] = rl(nm("v", i), -5, 5); m.store[names[i]] = i == 0 ? Parameter(m.v[i]) : i == 1 ? Parameter(m.v[i], FixedPrior()) : Parameter(m.v[i], UniformPrior(-6, 6)); } return m; }
HARNESS(mixin_setters) { auto m = fixed3(); Holder h(m.store); setters(h, m); }
HARNESS(declared_setters) { auto m = fixed3(); Declared d; d.b = m.store["b"]; d.a_1 = m.store["a_1"]; d.c = m.store["c"]; setters(d, m); auto p = d.get_params(); symx::check(d.b == p["b"] && d.a_1 == p["a_1"] && d.c == p["c"], "declared parameters are their members"); }
HARNESS(store_setters) { auto m = fixed3(); ParameterStore s = m.store, e = m.store; double v = rl("new", -5, 5); int how = symx::choose("how", 0, 4); if (how == 0) { set_param_value("c", v, &s); e["c"].value = v; } else if (how == 1) { set_param_prior("a_1", PositivePrior(), &s); e["a_1"].prior = PositivePrior(); } else if (how == 2) { symx::check(!set_param_prior_if_exists("x", PositivePrior(), &s) && set_param_prior_if_exists("b", PositivePrior(), &s), "reported"); e["b"].prior = PositivePrior(); } else if (how == 3) { ParameterStore none; symx::check(!set_params_if_exists(none, &s), "nothing set"); set_param_value("zz", v, &s, false); } else { symx_allow_abort_(1); set_param_value("zz", v, &s); symx::check(false, "unknown names are refused"); } same(s, e, "store changes exactly what was named"); }
template <class H> static void refuses(H &h) { symx::check(h.get_params().count("unknown") == 0, "the name is unknown"); symx_allow_abort_(1); int how = symx::choose("how", 0, 4); ParameterStore in; in["unknown"] = Parameter(1.); std::map<ParameterKey, ParameterValue> vals; vals["unknown"] = 1.; if (how == 0) unchecked_set_param("unknown", Parameter(1.), &h); else if (how == 1) h.set_param_value("unknown", 1.); else if (how == 2) h.set_params(in); else if (how == 3) h.set_param_values(vals); else h.set_prior("unknown", PositivePrior()); symx::check(false, "unknown names are refused"); }
HARNESS(unknown_mixin) { auto m = fixed3(); Holder h(m.store); refuses(h); }
HARNESS(unknown_declared) { Declared d; refuses(d); }
HARNESS(unknown_composite) { auto k = Constant(1.) + IndependentNoise<double>(1.); auto g = gp_from_covariance(k, "g"); int w = symx::choose("which", 0, 1); if (w) refuses(g); else refuses(k); }
struct PA : public CovarianceFunction<PA> { PA() { a0 = Parameter(0.); a1 = Parameter(0.); } ALBATROSS_DECLARE_PARAMS(a0, a1) double _call_impl(double, double) const { return a0.value + 2 * a1.value; } };
struct PB : public CovarianceFunction<PB> { PB() { b0 = Parameter(0.); } ALBATROSS_DECLARE_PARAMS(b0) double _call_impl(double, double) const { return 3 * b0.value; } };
struct PC : public CovarianceFunction<PC> { PC() { c0 = Parameter(0.); } ALBATROSS_DECLARE_PARAMS(c0) double _call_impl(double, double) const { return 5 * c0.value; } };
struct PM : public MeanFunction<PM> { PM() { m0 = Parameter(0.); } ALBATROSS_DECLARE_PARAMS(m0) double _call_impl(double) const { return 7 * m0.value; } };
struct PN : public MeanFunction<PN> { PN() { n0 = Parameter(0.); } ALBATROSS_DECLARE_PARAMS(n0) double _call_impl(double) const { return 11 * n0.value; } };
template <class H> static bool composite(H &h, const std::vector<std::string> &names, std::map<std::string, double> &v) {
  auto p = h.get_params(); symx::check(p.size() == names.size(), "exactly the parts' parameters"); for (auto &n : names) { symx::check(p.count(n) == 1, "every part's parameters"); v[n] = rl(n, -3, 3); } int how = symx::choose("how", 0, 2); double w = rl("w", -3, 3); if (how == 0) for (auto &n : names) h.set_param_value(n, v[n]); else if (how == 1) { for (auto &n : names) p[n] = Parameter(v[n]); h.set_params(p); } else { std::vector<double> x; auto sorted = names; std::sort(sorted.begin(), sorted.end()); for (auto &n : sorted) x.push_back(v[n]); h.set_tunable_params_values(x); }
  std::string one = names[symx::choose("one", 0, names.size() - 1)]; h.set_param(one, Parameter(w)); v[one] = w; auto q = h.get_params(); for (auto &n : names) symx::check(q.at(n).value == v[n], "parameter of a part"); return true;
}
HARNESS(sum_and_product) {
  std::map<std::string, double> v; int w = symx::choose("shape", 0, 3); auto val = [&](const std::string &n) { return v[n]; }; 
  if (w == 0) { auto k = PA() + PB() * PC(); composite(k, {"a0", "a1", "b0", "c0"}, v); symx::check_eq(k(0., 1.), v["a0"] + 2 * v["a1"] + 15 * v["b0"] * v["c0"], "parts use their parameters"); }
  else if (w == 1) { auto k = (PC() + PA()) * PB(); composite(k, {"a0", "a1", "b0", "c0"}, v); symx::check_eq(k(0., 1.), (5 * v["c0"] + v["a0"] + 2 * v["a1"]) * 3 * v["b0"], "parts use their parameters"); }
  else if (w == 2) { auto k = measurement_only(PA() + PB()) + PC(); composite(k, {"a0", "a1", "b0", "c0"}, v); symx::check_eq(k(Measurement<double>(0.), Measurement<double>(1.)), v["a0"] + 2 * v["a1"] + 3 * v["b0"] + 5 * v["c0"], "parts use their parameters"); symx::check_eq(k(0., 1.), 5 * v["c0"], "measurement part"); }
  else { auto k = PM() + PN() * PM(); (void)k; auto j = PM() + PN(); composite(j, {"m0", "n0"}, v); symx::check_eq(j(0.), 7 * v["m0"] + 11 * v["n0"], "mean parts use their parameters"); }
}
HARNESS(models) {
  std::map<std::string, double> v; auto g = gp_from_covariance_and_mean(PA() + PB(), PM(), "g"); std::vector<std::string> n = {"a0", "a1", "b0", "m0"}; int w = symx::choose("shape", 0, 1);
  if (w == 0) { composite(g, n, v); symx::check_eq(g.get_covariance()(0., 1.), v["a0"] + 2 * v["a1"] + 3 * v["b0"], "covariance of the model"); symx::check_eq(g.get_mean()(0.), 7 * v["m0"], "mean of the model"); auto p = g.prior(std::vector<double>{1., 2.}); symx::check_eq(p.mean[1], 7 * v["m0"], "prior mean"); symx::check_eq(p.covariance(0, 1), v["a0"] + 2 * v["a1"] + 3 * v["b0"], "prior covariance"); }
  else { auto r = g.ransac(DefaultGPRansacStrategy(), 1., 1, 2, 3); composite(r, n, v); }
}
HARNESS(prior_likelihood) { auto m = make(3, 4, false); double s = 0; for (auto &kv : m.store) s += kv.second.prior.log_pdf(kv.second.value); Holder h(m.store); symx::check(parameter_prior_log_likelihood(m.store) == s && h.prior_log_likelihood() == s, "sum of the priors' log densities"); }
HARNESS(large) { // more parameters
  int n = 13; ParameterStore s; std::vector<std::string> free; std::vector<double> x; for (int i = 0; i < n; i++) { std::string k = nm("p", i); s[k] = i % 3 == 1 ? Parameter(0.5 * i, FixedPrior()) : i % 3 == 2 ? Parameter(0.25 * i + 0.5, LogScaleUniformPrior(0.25, 8)) : Parameter(i == 6 ? rl("v6", -3, 3) : i - 5., UniformPrior(-20, 20 + i)); } for (auto &kv : s) if (!kv.second.is_fixed()) free.push_back(kv.first); auto t = get_tunable_parameters(s); symx::check(t.names == free && t.values.size() == free.size() && t.lower_bounds.size() == free.size() && t.upper_bounds.size() == free.size(), "many free parameters in the order of their names"); if (t.values.size() != free.size()) return;
  for (size_t i = 0; i < free.size(); i++) { const auto &p = s.at(free[i]); bool l = p.prior.is_log_scale(); symx::check_eq(t.values[i], l ? std::log(p.value) : p.value, "each of many packed values"); symx::check_eq(t.upper_bounds[i], l ? std::log(8.) : p.prior.upper_bound(), "each of many upper bounds"); x.push_back(l ? 0.125 * i : i % 4 == 1 ? rl(nm("x", i), -3, 3) : 1. + i); } Holder h(s); h.set_tunable_params_values(x); auto out = set_tunable_params_values(s, x, false); for (auto &kv : s) { size_t at = std::find(free.begin(), free.end(), kv.first) - free.begin(); bool l = kv.second.prior.is_log_scale(); double want = at == free.size() ? kv.second.value : l ? std::exp(x[at]) : x[at]; symx::check_eq(out.at(kv.first).value, want, "each of many unpacked values"); symx::check_eq(h.get_params().at(kv.first).value, want, "each of many values set"); symx::check(out.at(kv.first).prior == kv.second.prior, "each of many priors"); }
}
HARNESS(several_if_exists) { // some names known, others not, and undefined values
  auto m = fixed3(); ParameterStore s = m.store, e = m.store, in; std::map<ParameterKey, ParameterValue> iv; const char *names[4] = {"a_1", "aa", "b", "zz"}; bool all = true, any = false; int how = symx::choose("how", 0, 1), odd = symx::choose("undefined", -1, 3);
  for (int i = 0; i < 4; i++) if (symx::choose(nm("use", i).c_str(), 0, 1)) { any = true; double v = i == odd ? (double)NAN : rl(nm("v", i), -5, 5); in[names[i]] = Parameter(v); iv[names[i]] = v; if (e.count(names[i])) { if (how) e[names[i]].value = v; else e[names[i]] = Parameter(v); } else all = false; }
  bool r = how ? set_param_values_if_exists(iv, &s) : set_params_if_exists(in, &s); symx::check(r == (any && all), "reports whether every parameter exists"); symx::check(s.size() == e.size(), "no parameter is added"); for (auto &kv : e) { double a = s.at(kv.first).value, b = kv.second.value; if (std::isnan(b)) symx::check(std::isnan(a), "an undefined value is set too"); else symx::check(a == b, "the known ones are set"); symx::check(s.at(kv.first).prior == kv.second.prior, "priors of the known ones"); }
}
