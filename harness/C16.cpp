// @bounds: datasets of 0 to 4 features, each feature any of 3 values (so repeats occur everywhere), every target and variance symbolic; pairs of datasets of up to 3 features each; lists of up to 3 datasets; transforms of up to 2x2; 15 entries
// @assume: none
#include <albatross/Core>
#include <albatross/Indexing>
#include <albatross/GP>
#include <Eigen/Sparse>
#include "common.hpp"
using namespace albatross; using namespace hx;
using DS = RegressionDataset<Pt>;
template <class G, class K> static int has(const G &g, const K &k) { int c = 0; for (const auto &kv : g) if (kv.first == k) c++; return c; }
// an entry is a feature together with its target and variance
struct E { int id; double m, v; };
static std::vector<E> rows(const DS &d) { std::vector<E> r; symx::check(d.features.size() == (size_t)d.targets.mean.size() && d.targets.covariance.diagonal().size() == d.targets.mean.size() && d.size() == d.features.size(), "as many targets and variances as features"); for (size_t i = 0; i < d.features.size(); i++) r.push_back({d.features[i].id, d.targets.mean[(int)i], d.targets.get_diagonal((int)i)}); return r; }
static void same(const std::vector<E> &a, const std::vector<E> &b, const char *l) { symx::check(a.size() == b.size(), l); for (size_t i = 0; i < a.size() && i < b.size(); i++) symx::check(a[i].id == b[i].id && a[i].m == b[i].m && a[i].v == b[i].v, l); }
static bool pattern = false; // fixed features
static DS make(const char *t, int n, int kinds, int from = 0) { std::vector<Pt> f; for (int i = 0; i < n; i++) f.push_back(Pt{(int)(from + (pattern ? (i * 7 + t[0] * 3) % kinds : symx::choose(nm(t, i).c_str(), 0, kinds - 1)))}); return DS(f, MarginalDistribution(vec((std::string("m") + t).c_str(), n), vec((std::string("v") + t).c_str(), n, 0, 3))); }
HARNESS(construct) { int n = symx::choose("n", 0, 3); std::vector<Pt> f = pts(0, n); Vec m = vec("m", n), v = vec("v", n, 0, 3); DS a(f, MarginalDistribution(m, v)), b(f, m); auto c = create_dataset(f, MarginalDistribution(m, v)); std::vector<E> ea, eb; for (int i = 0; i < n; i++) { ea.push_back({i, m[i], v[i]}); eb.push_back({i, m[i], 0}); } same(rows(a), ea, "features and targets in order"); same(rows(b), eb, "targets without variance"); same(rows(c), ea, "created dataset"); symx::check(rows(DS()).empty(), "empty"); }
HARNESS(mismatch_refused) { int n = symx::choose("n", 0, 3), k = symx::choose("k", 0, 3), kind = symx::choose("kind", 0, 1); symx::check(n >= 0, "reached"); if (n != k) symx_allow_abort_(1); Vec m = vec("m", k), v = vec("v", k, 0, 3); if (kind) { DS d(pts(0, n), m); symx::check(n == k, "mismatching sizes are refused"); } else { auto d = create_dataset(pts(0, n), MarginalDistribution(m, v)); symx::check(n == k, "mismatching sizes are refused"); } }
HARNESS(equality) { int n = symx::choose("n", 0, 2), k = symx::choose("k", 0, 2); if (n != k) return; DS a = make("a", n, 2), b = make("b", n, 2); if (symx::choose("meta", 0, 1)) a.metadata["x"] = "1"; auto x = rows(a), y = rows(b); bool eq = a.metadata == b.metadata; for (int i = 0; i < n; i++) eq = eq && x[i].id == y[i].id && x[i].m == y[i].m && x[i].v == y[i].v; symx::check((a == b) == eq, "equal exactly when every entry is"); }
HARNESS(subsets) { int n = symx::choose("n", 1, 3), k = symx::choose("k", 0, 3); DS d = make("a", n, 2); auto all = rows(d); std::vector<std::size_t> ix; std::vector<E> want; for (int i = 0; i < k; i++) { ix.push_back(symx::choose(nm("i", i).c_str(), 0, n - 1)); want.push_back(all[ix[i]]); } same(rows(d.subset(ix)), want, "entries named, in order"); same(rows(subset(d, ix)), want, "free function"); std::vector<int> ii(ix.begin(), ix.end()); same(rows(d.subset(ii)), want, "signed indices"); same(rows(d), all, "the dataset is left alone"); }
HARNESS(filters) { int n = symx::choose("n", 0, 3), keep = symx::choose("keep", 0, 7); DS d = make("a", n, 3); std::vector<E> want; for (auto &e : rows(d)) if ((keep >> e.id) & 1) want.push_back(e); same(rows(filter(d, [&](const Pt &p) { return ((keep >> p.id) & 1) != 0; })), want, "entries kept, in order"); }
HARNESS(groups) {
  int n = symx::choose("n", 0, 4); DS d = make("a", n, 3); auto all = rows(d); auto by = [](const Pt &p) { return p.id / 2; }; auto g = d.group_by(by).groups(); auto counts = d.group_by(by).counts(); size_t total = 0; for (int k = 0; k < 2; k++) { std::vector<E> want; for (auto &e : all) if (e.id / 2 == k) want.push_back(e); total += want.size(); symx::check((has(g, k) == 1) == !want.empty() && (has(counts, k) == 1) == !want.empty(), "one group per value"); if (has(g, k)) { same(rows(g.at(k)), want, "each group holds its entries in order"); symx::check((size_t)counts.at(k) == want.size(), "group sizes"); } } symx::check(total == all.size(), "every entry in a group");
  if (n) { auto back = g.combine(); auto r = rows(back); symx::check(r.size() == all.size(), "combining keeps every entry"); std::vector<bool> used(all.size()); for (auto &e : r) { bool f = false; for (size_t i = 0; i < all.size() && !f; i++) if (!used[i] && all[i].id == e.id && all[i].m == e.m && all[i].v == e.v) { used[i] = true; f = true; } symx::check(f, "combined entries are the original ones"); } }
}
HARNESS(grouped_apply) { int n = symx::choose("n", 1, 3); DS d = make("a", n, 3); auto all = rows(d); auto sums = d.group_by([](const Pt &p) { return p.id; }).apply([](const DS &x) { double s = 0; for (int i = 0; i < (int)x.size(); i++) s += x.targets.mean[i]; return s; }); for (int k = 0; k < 3; k++) { double s = 0; int c = 0; for (auto &e : all) if (e.id == k) { s += e.m; c++; } symx::check((has(sums, k) == 1) == (c > 0), "one result per group"); if (c) symx::check_eq(sums.at(k), s, "result of each group"); } }
HARNESS(deduplication) { int n = symx::choose("n", 0, 4); DS d = make("a", n, 3); auto all = rows(d); std::vector<E> want; for (int i = 0; i < n; i++) { bool later = false; for (int j = i + 1; j < n; j++) later = later || all[j].id == all[i].id; if (!later) want.push_back(all[i]); } same(rows(deduplicate(d)), want, "each feature once, with its last target"); }
HARNESS(alignment_distinct) {
  int n = symx::choose("n", 0, 3), k = symx::choose("k", 0, 3); DS a = make("a", n, 4), b = make("b", k, 4); auto x = rows(a), y = rows(b); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) symx::assume(x[i].id != x[j].id); for (int i = 0; i < k; i++) for (int j = 0; j < i; j++) symx::assume(y[i].id != y[j].id); std::vector<E> wx, wy; for (auto &e : x) for (auto &f : y) if (e.id == f.id) { wx.push_back(e); wy.push_back(f); } align_datasets(&a, &b); same(rows(a), wx, "common entries of the first, in order"); same(rows(b), wy, "common entries of the second, in the order of the first");
}
HARNESS(alignment_repeats) {
  int n = symx::choose("n", 0, 3), k = symx::choose("k", 0, 2); DS a = make("a", n, 3), b = make("b", k, 3); auto x = rows(a), y = rows(b); align_datasets(&a, &b, [](const Pt &p, const Pt &q) { return p.id % 2 == q.id % 2; }); auto r = rows(a), s = rows(b); symx::check(r.size() == s.size(), "as many entries in both"); for (size_t i = 0; i < r.size(); i++) { symx::check(r[i].id % 2 == s[i].id % 2, "entries correspond"); bool f = false, g = false; for (auto &e : x) f = f || (e.id == r[i].id && e.m == r[i].m && e.v == r[i].v); for (auto &e : y) g = g || (e.id == s[i].id && e.m == s[i].m && e.v == s[i].v); symx::check(f && g, "each feature keeps its own target and variance"); }
  for (auto &e : x) { bool common = false, kept = false; for (auto &f : y) common = common || f.id % 2 == e.id % 2; for (auto &f : r) kept = kept || (f.id == e.id && f.m == e.m && f.v == e.v); symx::check(common == kept, "exactly the common features are kept"); } for (auto &e : y) { bool common = false, kept = false; for (auto &f : x) common = common || f.id % 2 == e.id % 2; for (auto &f : s) kept = kept || f.id % 2 == e.id % 2; symx::check(common == kept, "exactly the common features are kept in the second"); }
}
HARNESS(concatenation) {
  int n = symx::choose("n", 0, 2), k = symx::choose("k", 0, 2), l = symx::choose("l", 0, 2); DS a = make("a", n, 2), b = make("b", k, 2), c = make("c", l, 2); auto w = rows(a); for (auto &e : rows(b)) w.push_back(e); same(rows(concatenate_datasets(a, b)), w, "first then second"); for (auto &e : rows(c)) w.push_back(e); same(rows(concatenate_datasets(std::vector<DS>{a, b, c})), w, "in the order given"); same(rows(concatenate_datasets(std::vector<DS>{a})), rows(a), "one dataset"); symx::check(rows(concatenate_datasets(std::vector<DS>{})).empty(), "no datasets");
}
struct Q { int id = 0; bool operator==(const Q &o) const { return id == o.id; } };
HARNESS(concatenation_types) {
  int n = symx::choose("n", 0, 2), k = symx::choose("k", 0, 2); DS a = make("a", n, 2); std::vector<Q> f; for (int i = 0; i < k; i++) f.push_back(Q{i + 5}); RegressionDataset<Q> b(f, MarginalDistribution(vec("mb", k), vec("vb", k, 0, 3))); auto is = [](const auto &d, size_t at, int which, int id, double m, double v) { const auto &x = d.features[at]; bool ok = which == 0 ? x.template is<Pt>() && x.template get<Pt>().id == id : x.template is<Q>() && x.template get<Q>().id == id; symx::check(ok && d.targets.mean[at] == m && d.targets.get_diagonal(at) == v, "features of both types keep their targets"); };
  auto c = concatenate_datasets(a, b); symx::check((int)c.size() == n + k, "every entry"); for (int i = 0; i < n; i++) is(c, i, 0, a.features[i].id, a.targets.mean[i], a.targets.get_diagonal(i)); for (int i = 0; i < k; i++) is(c, n + i, 1, i + 5, b.targets.mean[i], b.targets.get_diagonal(i));
  auto d = concatenate_datasets(c, a), e = concatenate_datasets(b, c); symx::check((int)d.size() == 2 * n + k && (int)e.size() == n + 2 * k, "every entry of a mixed dataset"); for (int i = 0; i < n; i++) { is(d, n + k + i, 0, a.features[i].id, a.targets.mean[i], a.targets.get_diagonal(i)); is(d, i, 0, a.features[i].id, a.targets.mean[i], a.targets.get_diagonal(i)); is(e, k + i, 0, a.features[i].id, a.targets.mean[i], a.targets.get_diagonal(i)); } for (int i = 0; i < k; i++) { is(d, n + i, 1, i + 5, b.targets.mean[i], b.targets.get_diagonal(i)); is(e, i, 1, i + 5, b.targets.mean[i], b.targets.get_diagonal(i)); is(e, k + n + i, 1, i + 5, b.targets.mean[i], b.targets.get_diagonal(i)); }
}
HARNESS(transforms) { // a matrix times a dataset combines features and targets alike
  int r = symx::choose("rows", 1, 2), sparse = symx::choose("sparse", 0, 1); DS d = make("a", 2, 2); Mat A(r, 2); for (int i = 0; i < r; i++) for (int j = 0; j < 2; j++) A(i, j) = symx::choose(nm("z", i, j).c_str(), 0, 1) ? rl(nm("A", i, j), 0.1, 2) : 0.; auto chk = [&](const auto &t) { symx::check((int)t.size() == r, "one entry per row"); for (int i = 0; i < r; i++) { double w[2] = {0, 0}, m = 0, v = 0; for (int j = 0; j < 2; j++) { w[d.features[j].id] += A(i, j); m += A(i, j) * d.targets.mean[j]; v += A(i, j) * A(i, j) * d.targets.get_diagonal(j); } double got[2] = {0, 0}; const auto &f = t.features[i]; symx::check((int)f.values.size() == f.coefficients.size(), "one coefficient per value"); for (size_t k = 0; k < f.values.size(); k++) got[f.values[k].id] += f.coefficients[k]; for (int k = 0; k < 2; k++) symx::check_eq(got[k], w[k], "features combined with the row's coefficients"); symx::check_eq(t.targets.mean[i], m, "targets combined alike"); symx::check_eq(t.targets.get_diagonal(i), v, "variances combined alike"); } };
  if (sparse) { Eigen::SparseMatrix<double> S = A.sparseView(); auto t = S * d; chk(t); } else { auto t = A * d; chk(t); }
}
HARNESS(large) { // more entries
  pattern = true; int n = 15; DS d = make("a", n, 6), b = make("b", 11, 17), c = make("c", 13, 17, 5); pattern = false; auto all = rows(d); std::vector<E> want; for (int i = 0; i < n; i++) { bool later = false; for (int j = i + 1; j < n; j++) later = later || all[j].id == all[i].id; if (!later) want.push_back(all[i]); } same(rows(deduplicate(d)), want, "each of many features once, with its last target"); want.clear(); for (auto &e : all) if (e.id % 4) want.push_back(e); same(rows(filter(d, [](const Pt &p) { return p.id % 4 != 0; })), want, "entries kept of many"); std::vector<std::size_t> ix = {14, 2, 2, 9, 0, 13, 5, 6, 7}; want.clear(); for (auto i : ix) want.push_back(all[i]); same(rows(d.subset(ix)), want, "entries named of many");
  auto g = d.group_by([](const Pt &p) { return p.id; }).groups(); std::vector<E> merged; for (int k = 0; k < 6; k++) { want.clear(); for (auto &e : all) if (e.id == k) { want.push_back(e); merged.push_back(e); } if (!want.empty()) same(rows(g.at(k)), want, "each of many groups"); } same(rows(g.combine()), merged, "many groups combined"); want = all; for (auto &e : rows(b)) want.push_back(e); for (auto &e : rows(c)) want.push_back(e); same(rows(concatenate_datasets(std::vector<DS>{d, b, c})), want, "many in the order given");
  auto x = rows(b), y = rows(c); std::vector<E> wx, wy; for (auto &e : x) for (auto &f : y) if (e.id == f.id) { wx.push_back(e); wy.push_back(f); } symx::check(wx.size() > 4 && wx.size() < 11, "some in common"); align_datasets(&b, &c); same(rows(b), wx, "common entries of many"); same(rows(c), wy, "common entries of many in the second");
}
