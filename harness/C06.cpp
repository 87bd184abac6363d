// @bounds: containers of 0-3 elements (4 in the thorough tier) with symbolic integer keys and payloads (every ordering and coincidence of keys), subsets of up to 4 indices, 3x3 matrices; all element values symbolic; 17 elements with fixed keys
#include <albatross/Dataset>
#include <albatross/Indexing>
#include "common.hpp"
using namespace albatross; using namespace hx;
struct El { long id = 0, key = 0; double val = 0; bool operator==(const El &o) const { return id == o.id; } };
static bool pattern = false; // fixed keys
static std::vector<El> els(int n) { std::vector<El> r; for (int i = 0; i < n; i++) { El e; e.id = i; e.key = pattern ? (i * 7) % 5 - 2 : symx::integer(nm("key", i).c_str(), -2, 2); e.val = rl(nm("v", i), -5, 5); r.push_back(e); } return r; }
// groups in increasing key order, members in original order
template <class V> static std::vector<std::pair<long, std::vector<size_t>>> reference(const V &xs) {
  std::vector<std::pair<long, std::vector<size_t>>> g;
  for (size_t i = 0; i < xs.size(); i++) { bool f = false; for (auto &p : g) if (p.first == xs[i].key) { p.second.push_back(i); f = true; break; } if (!f) g.push_back({xs[i].key, {i}}); }
  for (size_t i = 0; i < g.size(); i++) for (size_t j = i + 1; j < g.size(); j++) if (g[j].first < g[i].first) std::swap(g[i], g[j]);
  return g;
}
static void grouping(int n) {
  auto xs = els(n); auto g = reference(xs); Vec y = vec("y", n), s = vec("s", n, 0, 2); RegressionDataset<El> ds(xs, MarginalDistribution(y, s));
  auto fn = [](const El &e) { return e.key; }; auto gb = group_by(xs, fn); auto gd = ds.group_by(fn); auto ix = gb.indexers(); auto gr = gb.groups(); auto dg = gd.groups(); auto ct = gb.counts(); auto ks = gb.keys();
  symx::check(gb.size() == g.size() && gr.size() == g.size() && ct.size() == g.size() && ks.size() == g.size() && dg.size() == g.size() && ix.size() == g.size(), "number of groups");
  std::vector<long> seen; gb.apply([&](const long &k, const std::vector<El> &v) { seen.push_back(k); seen.push_back(v.size()); }); std::vector<size_t> vsz; gb.apply([&](const std::vector<El> &v) { vsz.push_back(v.size()); });
  auto ap = gb.apply([](const long &k, const std::vector<El> &v) { double r = 0; for (auto &e : v) r += e.val; return r + 10. * k; }); auto ia = gb.index_apply([](const long &k, const GroupIndices &v) { return (double)(k + 100 * v.size()); }); std::vector<long> iv; gb.index_apply([&](const long &k, const GroupIndices &v) { iv.push_back(k); });
  symx::check(seen.size() == 2 * g.size() && vsz.size() == g.size() && iv.size() == g.size() && ap.size() == g.size() && ia.size() == g.size(), "each group visited once");
  auto wi = gb.with(ds); symx::check(wi.size() == g.size(), "joined groups"); auto wg = gb.with(ct);
  size_t i = 0; double tot = 0;
  for (auto &p : g) {
    symx::check(ks[i] == p.first, "keys sorted"); symx::check(ix.at(p.first) == p.second, "indexer"); symx::check(ct.at(p.first) == p.second.size(), "count"); const auto &v = gr.at(p.first); auto one = gb.get_group(p.first);
    symx::check(v.size() == p.second.size() && one.size() == v.size() && dg.at(p.first).size() == v.size(), "group size"); double sum = 0;
    for (size_t j = 0; j < p.second.size(); j++) { size_t k = p.second[j]; symx::check(v[j].id == (long)k && one[j].id == (long)k, "members in original order"); symx::check_eq(v[j].val, xs[k].val, "member value", 0); sum += xs[k].val;
      symx::check(dg.at(p.first).features[j].id == (long)k, "dataset member"); symx::check_eq(dg.at(p.first).targets.mean[j], y[k], "dataset value", 0); symx::check_eq(dg.at(p.first).targets.covariance.diagonal()[j], s[k], "dataset variance", 0);
      symx::check(wi.at(p.first).first[j].id == (long)k && wi.at(p.first).second.features[j].id == (long)k, "joined member"); }
    symx::check(wg.at(p.first).second == p.second.size() && wg.at(p.first).first.size() == p.second.size(), "joined grouped");
    symx::check(seen[2 * i] == p.first && seen[2 * i + 1] == (long)p.second.size() && vsz[i] == p.second.size() && iv[i] == p.first, "groups visited in order"); symx::check_eq(ap.at(p.first), sum + 10. * p.first, "applied value"); symx::check_eq(ia.at(p.first), (double)(p.first + 100 * (long)p.second.size()), "index applied value"); tot += sum + 10. * p.first; i++;
  }
  symx::check_eq(ap.sum(), tot, "sum over groups"); symx::check_eq(ap.mean() * (double)g.size(), tot, "mean over groups"); Vec cb = combine(ap); symx::check((size_t)cb.size() == g.size(), "combined size"); for (size_t j = 0; j < g.size(); j++) symx::check_eq(cb[j], ap.at(g[j].first), "combined value", 0);
  auto fg = gb.first_group(); symx::check(fg.first == g[0].first && fg.second.size() == g[0].second.size() && fg.second[0].id == (long)g[0].second[0], "first group"); symx::check(gr.first_group().first == g[0].first && gr.last_value()[0].id == (long)g.back().second[0] && gr.first_value()[0].id == (long)g[0].second[0], "first and last value");
  auto back = gr.combine(); auto dback = dg.combine(); symx::check(back.size() == (size_t)n && dback.size() == (size_t)n, "combined groups"); i = 0; for (auto &p : g) for (size_t k : p.second) { symx::check(back[i].id == (long)k && dback.features[i].id == (long)k, "combined order"); symx::check_eq(dback.targets.mean[i], y[k], "combined value", 0); symx::check_eq(dback.targets.covariance.diagonal()[i], s[k], "combined variance", 0); i++; }
  // largest and smallest
  double mn = ap.at(g[0].first), mx = mn; for (auto &p : g) { double v = ap.at(p.first); if (v < mn) mn = v; if (v > mx) mx = v; } symx::check_eq(ap.min_value(), mn, "least value", 0); symx::check_eq(ap.max_value(), mx, "greatest value", 0); symx::check_eq(ap.at(ap.min_key()), mn, "key of the least value", 0); symx::check_eq(ap.at(ap.max_key()), mx, "key of the greatest value", 0);
  auto kept = gr.filter([](const std::vector<El> &v) { return v.size() > 1; }); auto kept2 = gb.filter([](const long &k, const std::vector<El> &v) { return k > 0; }); size_t e1 = 0, e2 = 0; for (auto &p : g) { bool a = p.second.size() > 1, b = p.first > 0; e1 += a; e2 += b; symx::check((kept.find(p.first) != kept.end()) == a, "filtered groups"); symx::check((kept2.find(p.first) != kept2.end()) == b, "filtered by key"); if (a) symx::check(kept.at(p.first)[0].id == (long)p.second[0], "filtered value"); } symx::check(kept.size() == e1 && kept2.size() == e2, "filtered count");
  auto ic = indices_from_groups(ix, {g.back().first, g[0].first}); std::vector<size_t> re = g.back().second; re.insert(re.end(), g[0].second.begin(), g[0].second.end()); symx::check(ic == re, "indices of groups");
}
HARNESS(grouping_1) { grouping(1); }
HARNESS(grouping_2) { grouping(2); }
HARNESS(grouping_3) { grouping(3); }
#ifdef SYMX_THOROUGH
HARNESS(grouping_4) { grouping(4); }
#endif
HARNESS(filters) {
  
#ifdef SYMX_THOROUGH
  const int top = 4;
#else
  const int top = 3;
#endif
  int n = symx::choose("n", 0, top); auto xs = els(n); Vec y = vec("y", n), s = vec("s", n, 0, 2); RegressionDataset<El> ds(xs, MarginalDistribution(y, s)); long cut = symx::integer("cut", -3, 3); auto keep = [&](const El &e) { return e.key > cut; };
  auto f = filter(xs, keep); auto d = filter(ds, keep); size_t k = 0; for (int i = 0; i < n; i++) if (xs[i].key > cut) { symx::check(k < f.size() && f[k].id == i, "kept element"); symx::check(k < d.size() && d.features[k].id == i, "kept feature"); symx::check_eq(d.targets.mean[k], y[i], "kept value", 0); symx::check_eq(d.targets.covariance.diagonal()[k], s[i], "kept variance", 0); k++; }
  symx::check(f.size() == k && d.size() == k && d.targets.size() == k, "kept count");
  std::set<long> ss; std::map<long, double> mp; for (auto &e : xs) { ss.insert(e.key); mp.emplace(e.key, e.val); } auto fs = filter(ss, [&](const long &v) { return v > cut; }); auto fm = filter(mp, [&](const long &v, const double &) { return v > cut; }); auto fv = filter(mp, [&](const double &v) { return v > 0; });
  for (auto &e : xs) { symx::check((fs.count(e.key) == 1) == (e.key > cut), "set filter"); symx::check((fm.find(e.key) != fm.end()) == (e.key > cut), "map filter"); symx::check((fv.find(e.key) != fv.end()) == (mp.at(e.key) > 0), "map filter by value"); }
  symx::check(fs.size() == fm.size() && fv.size() <= mp.size() && fs.size() <= ss.size(), "nothing invented");
  auto uv = unique_values(xs, [](const El &e) { return e.key; }); symx::check(uv == ss, "unique values"); std::vector<long> ids; albatross::apply(xs, [&](const El &e) { ids.push_back(e.id); }); auto dbl = albatross::apply(xs, [](const El &e) { return 2. * e.val; }); symx::check(ids.size() == (size_t)n && dbl.size() == (size_t)n, "each element visited once"); for (int i = 0; i < n; i++) { symx::check(ids[i] == i, "visited in order"); symx::check_eq(dbl[i], 2. * xs[i].val, "applied value", 0); }
}
HARNESS(subsets) {
  int n = 4; Vec v = vec("v", n); Mat A(4, 4); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) A(i, j) = rl(nm("a", i, j), -3, 3); std::vector<double> sv(v.data(), v.data() + n);
  int m = symx::choose("m", 0, 3); std::vector<size_t> ix; for (int i = 0; i < m; i++) ix.push_back(symx::choose(nm("i", i).c_str(), 0, n - 1));
  Vec a = subset(v, ix); auto b = subset(sv, ix); symx::check(a.size() == m && (int)b.size() == m, "subset size"); for (int i = 0; i < m; i++) { symx::check_eq(a[i], v[ix[i]], "vector subset", 0); symx::check_eq(b[i], v[ix[i]], "container subset", 0); }
  Mat c = subset_cols(A, ix), r = subset_rows(A, ix), q = symmetric_subset(A, ix), h = subset(A, std::vector<size_t>{2, 0}, ix); symx::check(c.rows() == 4 && c.cols() == m && r.rows() == m && r.cols() == 4 && q.rows() == m && q.cols() == m && h.rows() == 2 && h.cols() == m, "matrix subset size");
  for (int i = 0; i < m; i++) { for (int j = 0; j < 4; j++) { symx::check_eq(c(j, i), A(j, ix[i]), "columns", 0); symx::check_eq(r(i, j), A(ix[i], j), "rows", 0); } for (int j = 0; j < m; j++) symx::check_eq(q(i, j), A(ix[i], ix[j]), "symmetric subset", 0); symx::check_eq(h(0, i), A(2, ix[i]), "rows and columns", 0); symx::check_eq(h(1, i), A(0, ix[i]), "rows and columns", 0); }
  Eigen::DiagonalMatrix<double, Eigen::Dynamic> D(v); Vec dd = symmetric_subset(D, ix).diagonal(); for (int i = 0; i < m; i++) symx::check_eq(dd[i], v[ix[i]], "diagonal subset", 0);
  auto co = indices_complement(ix, n); std::vector<size_t> rc; for (size_t i = 0; i < (size_t)n; i++) if (std::find(ix.begin(), ix.end(), i) == ix.end()) rc.push_back(i); symx::check(co == rc, "complement");
  bool distinct = true; for (int i = 0; i < m; i++) for (int j = 0; j < i; j++) if (ix[i] == ix[j]) distinct = false;
  if (distinct) { Vec to = vec("t", n), w = to, u = vec("u", m); set_subset(u, ix, &to); Vec got = subset(to, ix); for (int i = 0; i < m; i++) symx::check_eq(got[i], u[i], "restored subset", 0); for (size_t i : rc) symx::check_eq(to[i], w[i], "others untouched", 0);
    Eigen::DiagonalMatrix<double, Eigen::Dynamic> T(w), U(u); set_subset(U, ix, &T); for (int i = 0; i < m; i++) symx::check_eq(T.diagonal()[ix[i]], u[i], "diagonal restored", 0); for (size_t i : rc) symx::check_eq(T.diagonal()[i], w[i], "diagonal others untouched", 0); }
}
HARNESS(combining) {
  std::map<int, Vec> m; int n0 = symx::choose("n0", 0, 2), n1 = symx::choose("n1", 0, 2), n2 = symx::choose("n2", 0, 2); m[5] = vec("a", n0); m[1] = vec("b", n1); m[3] = vec("c", n2); Vec c = combine(m); symx::check(c.size() == n0 + n1 + n2, "combined size");
  int k = 0; for (int i = 0; i < n1; i++) symx::check_eq(c[k++], m[1][i], "combined", 0); for (int i = 0; i < n2; i++) symx::check_eq(c[k++], m[3][i], "combined", 0); for (int i = 0; i < n0; i++) symx::check_eq(c[k++], m[5][i], "combined", 0);
  Vec ab = concatenate(m[5], m[1]); symx::check(ab.size() == n0 + n1, "concatenated size"); for (int i = 0; i < n0; i++) symx::check_eq(ab[i], m[5][i], "concatenated", 0); for (int i = 0; i < n1; i++) symx::check_eq(ab[n0 + i], m[1][i], "concatenated", 0);
  Grouped<int, bool> gb; gb.emplace(1, symx::integer("p", 0, 1) == 1); gb.emplace(0, symx::integer("q", 0, 1) == 1); symx::check(gb.all() == (gb.at(0) && gb.at(1)), "all"); symx::check(gb.any() == (gb.at(0) || gb.at(1)), "any");
}
HARNESS(k_folds) { int n = symx::choose("n", 1, 5), k = symx::choose("k", 1, 5); std::vector<double> v(n, 0.); auto ix = group_by(v, KFoldGrouper(k)).indexers(); auto lo = group_by(v, LeaveOneOutGrouper()).indexers(); symx::check((int)ix.size() == std::min(n, k) && (int)lo.size() == n, "number of folds"); size_t t = 0; for (auto &p : ix) { for (size_t i : p.second) symx::check(i % k == p.first, "fold members"); t += p.second.size(); symx::check((int)p.second.size() >= n / k, "balanced folds"); } symx::check((int)t == n, "folds partition"); for (auto &p : lo) symx::check(p.second.size() == 1 && p.second[0] == p.first, "left out"); }
HARNESS(large) { pattern = true; grouping(17); pattern = false; }
HARNESS(grouped_numbers) { // whole numbers: totals, averages and extremes
  Grouped<int, int> g; int v[4]; for (int i = 0; i < 4; i++) { v[i] = i == 2 ? 5 : symx::choose(nm("v", i).c_str(), -2, 1) * 3; g.emplace(10 - i, v[i]); } double s = 0.0 + v[0] + v[1] + v[2] + v[3]; symx::check_eq(g.mean() * 4, s, "mean of whole numbers", 1e-9); symx::check_eq(double(g.sum()), s, "sum of whole numbers", 0);
  int lo = g.min_value(), hi = g.max_value(); symx::check(g.at(g.min_key()) == lo && g.at(g.max_key()) == hi, "the key of an extreme names it"); for (int i = 0; i < 4; i++) symx::check(lo <= v[i] && v[i] <= hi, "extremes bound every value"); symx::check(g.first_value() == v[3] && g.last_value() == v[0] && g.first_group().first == 7, "first and last by key");
}
