// @bounds: vectors of up to 4 variants of three alternatives (structures, numbers and convertible numbers) with every held value symbolic; datasets with symbolic targets and variances; integers within a band around each limit of the numeric casts and around zero; 24 elements
// @assume: none
#include <albatross/Core>
#include <albatross/Dataset>
#include <albatross/Indexing>
#include <albatross/src/utils/variant_utils.hpp>
#include "common.hpp"
using namespace albatross; using namespace hx;
struct A { double x = 0; bool operator==(const A &o) const { return x == o.x; } };
struct B { double x = 0; bool operator==(const B &o) const { return x == o.x; } };
using V = variant<A, B, double>; using S = variant<B, A>; using N = variant<int, double, bool>;
static V mk(int k, double x) { if (k == 0) return A{x}; if (k == 1) return B{x}; return x; }
static double val(const V &v) { return v.match([](const A &a) { return a.x; }, [](const B &b) { return b.x; }, [](double d) { return d; }); }
HARNESS(extract) {
  int n = symx::choose("n", 0, 4); std::vector<V> v; std::vector<double> want[3]; for (int i = 0; i < n; i++) { int k = symx::choose(nm("k", i).c_str(), 0, 2); double x = rl(nm("x", i), -3, 3); v.push_back(mk(k, x)); want[k].push_back(x); }
  auto a = extract_from_variants<A>(v); auto b = extract_from_variants<B>(v); auto d = extract_from_variants<double>(v); symx::check(a.size() == want[0].size() && b.size() == want[1].size() && d.size() == want[2].size(), "exactly the elements of the alternative"); for (size_t i = 0; i < a.size() && i < want[0].size(); i++) symx::check(a[i].x == want[0][i], "in order"); for (size_t i = 0; i < b.size() && i < want[1].size(); i++) symx::check(b[i].x == want[1][i], "in order, second"); for (size_t i = 0; i < d.size() && i < want[2].size(); i++) symx::check(d[i] == want[2][i], "in order, third");
}
HARNESS(extract_dataset) {
  int n = symx::choose("n", 0, 3); std::vector<V> v; std::vector<int> want; Vec y = vec("y", n), s = vec("s", n, 0, 2); std::vector<double> xs; for (int i = 0; i < n; i++) { int k = symx::choose(nm("k", i).c_str(), 0, 2); double x = rl(nm("x", i), -3, 3); v.push_back(mk(k, x)); if (k == 1) { want.push_back(i); xs.push_back(x); } } auto d = extract_from_variants<B>(RegressionDataset<V>(v, MarginalDistribution(y, s))); symx::check(d.size() == want.size() && size_t(d.targets.mean.size()) == want.size(), "entries of the alternative"); if (d.size() != want.size()) return; for (size_t i = 0; i < want.size(); i++) { symx::check(d.features[i].x == xs[i], "feature"); symx::check_eq(d.targets.mean[i], y[want[i]], "its own target"); symx::check_eq(d.targets.get_diagonal(i), s[want[i]], "its own variance"); }
}
HARNESS(to_variants) {
  int n = symx::choose("n", 0, 4), old = symx::choose("old", 0, 2); std::vector<A> a; for (int i = 0; i < n; i++) a.push_back(A{rl(nm("x", i), -3, 3)}); auto v = to_variant_vector<V>(a); std::vector<V> w(old, V(2.)); set_variants(a, &w); symx::check(v.size() == a.size() && w.size() == a.size(), "one variant per element"); for (int i = 0; i < n; i++) { symx::check(v[i].is<A>() && w[i].is<A>(), "alternative of the element"); symx::check(val(v[i]) == a[i].x && val(w[i]) == a[i].x, "value of the element"); } auto back = extract_from_variants<A>(v); symx::check(back == a, "and back");
}
HARNESS(sub_variants) {
  int n = symx::choose("n", 0, 3); std::vector<S> s; for (int i = 0; i < n; i++) { double x = rl(nm("x", i), -3, 3); if (symx::choose(nm("k", i).c_str(), 0, 1)) s.push_back(A{x}); else s.push_back(B{x}); } auto v = to_variant_vector<V>(s); symx::check(v.size() == s.size(), "one per element"); for (int i = 0; i < n; i++) { symx::check(v[i].is<A>() == s[i].is<A>() && v[i].is<B>() == s[i].is<B>(), "same alternative"); symx::check(s[i].match([&](const auto &q) { return q.x == val(v[i]); }), "same value"); V one(4.); set_variant(s[i], &one); symx::check(one == v[i], "set from a smaller variant"); } V c(1.); A a{rl("q", -1, 1)}; set_variant(a, &c); symx::check(c.is<A>() && val(c) == a.x, "set from a value"); V e; set_variant(c, &e); symx::check(e == c, "set from the same variant");
}
HARNESS(convertible) { int k = symx::choose("k", 0, 2); N v; int i = symx::integer("i", -4, 4); double d = rl("d", -3, 3); if (k == 0) v = i; else if (k == 1) v = d; else v = true; std::vector<N> vs = {v, N(5)}; auto a = extract_from_variants<int>(vs); auto b = extract_from_variants<double>(vs); auto c = extract_from_variants<bool>(vs); symx::check(a.size() == 1u + (k == 0) && b.size() == size_t(k == 1) && c.size() == size_t(k == 2), "no conversion between alternatives"); if (k == 0) symx::check(a[0] == i, "integer"); if (k == 1) symx::check(b[0] == d, "number"); std::vector<int> is = {i}; auto w = to_variant_vector<N>(is); symx::check(w.size() == 1 && w[0].is<int>() && w[0].get<int>() == i, "an integer stays one"); std::vector<bool> bs; }
// ---- numeric casts ----
HARNESS(casts) {
  int i = symx::integer("i", -1000, 1000), at = symx::choose("at", 0, 2); Eigen::Index base = at == 0 ? 0 : at == 1 ? (Eigen::Index(1) << 53) - 1000 : (Eigen::Index(1) << 62); Eigen::Index x = base + i; symx::check(true, "reached"); int w = symx::choose("w", 0, 3); bool ok = w == 0 ? x >= 0 : w == 1 ? x >= 0 : w == 2 ? x >= 0 && at < 2 : at < 2;
  if (w == 0) { if (!ok) symx_allow_abort_(1); std::size_t s = cast::to_size(x); symx::check(ok && Eigen::Index(s) == x, "negative indices are no sizes"); } else if (w == 1) { if (!ok) return; Eigen::Index s = cast::to_index(std::size_t(x)); symx::check(s == x, "index of a size"); } else if (w == 2) { if (x < 0 ) return; if (!ok) symx_allow_abort_(1); double d = cast::to_double(std::size_t(x)); symx::check(ok, "sizes beyond the precision of a number are refused"); (void)d; } else { if (!ok) symx_allow_abort_(1); double d = cast::to_double(x); symx::check(ok, "indices beyond the precision of a number are refused"); (void)d; }
}
HARNESS(casts_limits) { symx::check(true, "reached"); int w = symx::choose("w", 0, 5), i = symx::integer("i", 0, 5000); const long long L = 1LL << 53; Eigen::Index over = L + 1 + i, under = -L - 1 - i; symx_allow_abort_(1); if (w == 0) cast::to_double(over); else if (w == 1) cast::to_double(under); else if (w == 2) cast::to_double(std::size_t(over)); else if (w == 3) cast::to_index(std::size_t(1) + std::numeric_limits<Eigen::Index>::max() + i); else if (w == 4) cast::to_size(Eigen::Index(-1 - i)); else cast::to_double(std::size_t(-1) - i); symx::check(false, "out of range is refused"); }
HARNESS(casts_at_the_limit) { const long long L = 1LL << 53; symx::check(cast::to_double(Eigen::Index(L)) == 9007199254740992., "largest exact index"); symx::check(cast::to_double(Eigen::Index(-L)) == -9007199254740992., "smallest exact index"); symx::check(cast::to_double(std::size_t(L)) == 9007199254740992., "largest exact size"); symx::check(cast::to_index(std::size_t(std::numeric_limits<Eigen::Index>::max())) == std::numeric_limits<Eigen::Index>::max(), "largest index"); long i = symx::choose("i", 0, 9); symx::check(cast::to_double(Eigen::Index(L - i)) == 9007199254740992. - i && cast::to_double(std::size_t(L - i)) == 9007199254740992. - i, "below the limit"); }
HARNESS(casts_keep_the_number) { int i = symx::integer("i", -100, 100); symx::check(cast::to_double(Eigen::Index(i)) == double(i), "index as a number"); if (i >= 0) { symx::check(cast::to_double(std::size_t(i)) == double(i), "size as a number"); symx::check(cast::to_size(Eigen::Index(i)) == std::size_t(i) && cast::to_index(std::size_t(i)) == Eigen::Index(i), "size and index"); } }
HARNESS(large) { // more elements
  int n = 24; std::vector<V> v; std::vector<double> want[3]; std::vector<int> at; Vec y = big_vec("y", n, 5), s = big_noise(n); for (int i = 0; i < n; i++) { int k = (i * 5) % 7 % 3; double x = i % 6 == 2 ? rl(nm("x", i), -3, 3) : 0.5 * i; v.push_back(mk(k, x)); want[k].push_back(x); if (k == 1) at.push_back(i); } auto a = extract_from_variants<A>(v); auto b = extract_from_variants<B>(v); auto d = extract_from_variants<double>(v); symx::check(a.size() == want[0].size() && b.size() == want[1].size() && d.size() == want[2].size(), "exactly the elements of the alternative of many"); for (size_t i = 0; i < a.size(); i++) symx::check(a[i].x == want[0][i], "first of many in order"); for (size_t i = 0; i < d.size(); i++) symx::check(d[i] == want[2][i], "third of many in order"); auto ds = extract_from_variants<B>(RegressionDataset<V>(v, MarginalDistribution(y, s))); symx::check(ds.size() == at.size() && ds.targets.size() == at.size(), "entries of the alternative of many"); for (size_t i = 0; i < at.size(); i++) { symx::check(ds.features[i].x == want[1][i], "feature of many"); symx::check(ds.targets.mean[i] == y[at[i]] && ds.targets.get_diagonal(i) == s[at[i]], "target of many"); } auto back = to_variant_vector<V>(a); symx::check(back.size() == a.size() && extract_from_variants<A>(back) == a, "many and back");
}
