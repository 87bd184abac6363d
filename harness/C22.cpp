// @bounds: every graph of up to 3 edges (repeated ones and loops included) on 3 vertices, every graph of 4 edges on 4 vertices from a list of shapes and the complete graph of 4 vertices less one edge, with every weight symbolic in [-10,10] (ties included), given in either orientation; graphs of 7 and 8 vertices with one symbolic weight, in two units
// @assume: weights are numbers (not NaN)
#include <albatross/Graph>
#include "common.hpp"
using namespace albatross; using namespace hx;
using G = Graph<int>; using E = Edge<int>;
static int root(std::vector<int> &p, int i) { while (p[i] != i) i = p[i]; return i; }
static bool forest(const std::vector<E> &e, int n, int *parts) { std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i; bool ok = true; *parts = n; for (auto &x : e) { int a = root(p, x.a), b = root(p, x.b); if (a == b) ok = false; else { p[a] = b; --*parts; } } return ok; }
// the tree that holds vertex v
static bool reached(const std::vector<E> &e, int n, int v, int w) { std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i; for (auto &x : e) { int a = root(p, x.a), b = root(p, x.b); p[a] = b; } return root(p, v) == root(p, w); }
static void judge(const std::vector<E> &in, const G &out, int n, bool min, bool tree, const char *who) {
  (void)who; int parts, all; bool acyclic = forest(out.edges, n, &parts); std::vector<int> p; forest(in, n, &all); symx::check(acyclic, "no cycle");
  std::vector<char> used(in.size() + 1, 0); for (auto &e : out.edges) { bool known = e.id >= 1 && e.id <= in.size() && !used[e.id]; symx::check(known, "each edge is one of the graph's, once"); if (!known) return; used[e.id] = 1; const E &o = in[e.id - 1]; symx::check((o.a == e.a && o.b == e.b) || (o.a == e.b && o.b == e.a), "end points of the edge"); symx::check(o.cost == e.cost, "cost of the edge"); symx::check(contains_vertex(out, e.a) && contains_vertex(out, e.b), "vertices of the edges"); }
  if (!tree || all == 1) symx::check(parts == all, "connects what the graph connects");
  if (tree && all > 1) { // one component's tree
    if (!out.edges.empty()) { int v = out.edges[0].a; for (int w = 0; w < n; w++) symx::check(reached(out.edges, n, v, w) == reached(in, n, v, w), "spans the component"); } }
  if (!acyclic || (tree && all > 1)) return;
  double total = 0; for (auto &e : out.edges) total += e.cost;
  for (unsigned m = 0; m < (1u << in.size()); m++) { std::vector<E> s; double t = 0; for (size_t i = 0; i < in.size(); i++) if (m >> i & 1) { s.push_back(in[i]); t += in[i].cost; } int k; if (s.size() != out.edges.size() || !forest(s, n, &k) || k != all) continue; symx::check(min ? total <= t + 1e-9 : total >= t - 1e-9, min ? "no lighter spanning set" : "no heavier spanning set"); }
}
static void run(const std::vector<E> &e, int n) { G g = create_graph(e); int w = symx::choose("which", 0, 3); if (w == 0) judge(e, minimum_spanning_tree(g), n, true, true, "min tree"); else if (w == 1) judge(e, maximum_spanning_tree(g), n, false, true, "max tree"); else if (w == 2) judge(e, minimum_spanning_forest(g), n, true, false, "min forest"); else judge(e, maximum_spanning_forest(g), n, false, false, "max forest"); }
static void shape(std::vector<std::pair<int, int>> ends, int n) { std::vector<E> e; bool flip = symx::choose("flip", 0, 1); for (size_t i = 0; i < ends.size(); i++) { int a = ends[i].first, b = ends[i].second; if (flip && i % 2) std::swap(a, b); e.emplace_back(a, b, rl(nm("w", i), -10, 10), i + 1); } run(e, n); }
template <int M> static void any() { std::vector<std::pair<int, int>> s; for (int i = 0; i < M; i++) { int k = symx::choose(nm("e", i).c_str(), 0, 5); static const int a[6] = {0, 0, 1, 0, 1, 2}, b[6] = {1, 2, 2, 0, 1, 2}; s.push_back({a[k], b[k]}); } shape(s, 3); }
HARNESS(one_edge) { any<1>(); }
HARNESS(two_edges) { any<2>(); }
HARNESS(three_edges) { any<3>(); }
HARNESS(square) { shape({{0, 1}, {1, 2}, {2, 3}, {3, 0}}, 4); }
HARNESS(triangle_and_tail) { shape({{0, 1}, {1, 2}, {2, 0}, {3, 2}}, 4); }
HARNESS(two_pairs) { shape({{0, 1}, {0, 1}, {2, 3}, {3, 2}}, 4); }
HARNESS(star) { shape({{3, 0}, {3, 1}, {2, 3}, {3, 3}}, 4); }
HARNESS(diamond) { shape({{0, 1}, {1, 2}, {2, 3}, {3, 0}, {0, 2}}, 4); }
HARNESS(empty_graph) { G g; symx::check(minimum_spanning_tree(g).edges.empty() && maximum_spanning_tree(g).edges.empty() && minimum_spanning_forest(g).edges.empty() && maximum_spanning_forest(g).edges.empty(), "nothing to span"); }
HARNESS(graphs) {
  G g; int n = symx::choose("n", 0, 3); std::vector<E> es; for (int i = 0; i < n; i++) { E e(symx::choose(nm("a", i).c_str(), 0, 2), symx::choose(nm("b", i).c_str(), 0, 2), rl(nm("w", i), -3, 3), i); es.push_back(e); add_edge(e, &g); } G h = create_graph(es); symx::check(g.vertices == h.vertices && g.edges.size() == h.edges.size(), "adding edges one by one"); std::set<int> v; for (auto &e : es) { v.insert(e.a); v.insert(e.b); } symx::check(h.vertices == v && compute_vertices(es) == v, "vertices are the edges' end points"); auto adj = adjacency_map(h); symx::check(adj.size() == v.size(), "every vertex has neighbours"); for (int i : v) { size_t k = 0; for (auto &e : es) k += (e.a == i) + (e.b == i); symx::check(adj.at(i).size() == k, "each end of each edge"); for (auto &e : adj.at(i)) { const E &o = es.at(e.id); symx::check(e.a == i && (o.a == i ? o.b == e.b : o.b == i && o.a == e.b) && e.cost == o.cost, "edges leave the vertex"); } }
}
HARNESS(order) { E e(symx::choose("a", 0, 1), symx::choose("b", 0, 1), rl("x", -1, 1)), f(symx::choose("c", 0, 1), symx::choose("d", 0, 1), rl("y", -1, 1)); bool lt = e < f, gt = f < e, same = e == f; symx::check(lt + gt + same == 1, "exactly one of less, greater, equal"); if (e.cost < f.cost) symx::check(lt, "cost first"); }
#ifdef SYMX_THOROUGH
HARNESS(complete) { shape({{0, 1}, {0, 2}, {0, 3}, {1, 2}, {1, 3}, {2, 3}}, 4); }
HARNESS(four_edges) { any<4>(); }
#endif
HARNESS(large) { // more vertices, with ties, one weight arbitrary
  static const int a[11] = {0, 1, 2, 3, 4, 5, 6, 0, 1, 2, 3}, b[11] = {1, 2, 3, 4, 5, 6, 0, 3, 4, 5, 6}; std::vector<E> e; int w = symx::choose("set", 0, 1), m = w ? 9 : 11; for (int i = 0; i < m; i++) { bool flip = i % 3 == 1; int x = a[i], y = b[i]; if (w && (x == 4 || y == 4)) continue; e.emplace_back(flip ? y : x, flip ? x : y, i == 4 ? rl("w", -4, 6) : double((i * 7) % 4), e.size() + 1); } run(e, 7);
}
HARNESS(large_signs) { // weights of either sign, zero bridges, small and large ones
  static const int a[11] = {0, 1, 2, 3, 4, 5, 6, 0, 1, 2, 7}, b[11] = {1, 2, 3, 4, 5, 6, 0, 3, 4, 5, 3}; double off = symx::choose("shift", 0, 2) * 1.5, unit = symx::choose("unit", 0, 1) ? 1e5 : 1e-3; std::vector<E> e; int m = 11; for (int i = 0; i < m; i++) { bool flip = i % 3 == 1; double w = i == 10 ? 0 : i == 4 ? rl("w", -4, 6) : (i * 7) % 4 - off; e.emplace_back(flip ? b[i] : a[i], flip ? a[i] : b[i], w * unit, i + 1); } run(e, 8);
}
