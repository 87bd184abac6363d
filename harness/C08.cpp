// @race: on
// @bounds: up to 4 tasks run atomically in every order (run at once, later, or when waited for), conflicting accesses of two tasks that no order separates are reported whatever they compute; pools of 0 (none) to 5 threads; vectors, maps and groups of up to 3 elements, covariance matrices up to 8x8 in any order and 20x20 in one order, block solves of up to 3 blocks, all values symbolic
// @assume: the pool runs each queued task exactly once, and a future's get() returns after its task has run (stand-in in stubs/ThreadPool.h; the real pool is a third-party dependency)
#include <albatross/GP>
#include <albatross/CovarianceFunctions>
#include <albatross/Tune>
#include "common.hpp"
using namespace albatross; using namespace hx;
static int threads(int hi) { return symx::choose("threads", 0, hi); }
// the schedule of one call (the chosen one) is arbitrary; the others run in order
static int turn_, chosen_;
static void one_of(int n) { chosen_ = symx::choose("call", 0, n - 1); turn_ = 0; ThreadPool::adversarial = chosen_ == 0; }
static void done(const char *) { symx::no_race("no data race"); ThreadPool::adversarial = ++turn_ == chosen_; }
static std::shared_ptr<ThreadPool> pool_of(int n) { one_of(1); return n ? std::make_shared<ThreadPool>(n) : nullptr; }
HARNESS(vectors) {
  int n = symx::choose("n", 0, 3); Vec v = vec("v", 4); std::vector<int> xs; for (int i = 0; i < n; i++) xs.push_back(i); int cnt[4] = {0}; auto p = pool_of(threads(3)); one_of(2);
  auto f = [&](const int &i) { cnt[i]++; return v[i] * 2; }; auto r = albatross::apply(xs, f, p.get()); done("");
  symx::check((int)r.size() == n, "one result per element"); for (int i = 0; i < n; i++) { symx::check(cnt[i] == 1, "each element once"); symx::check_eq(r[i], 2 * v[i], "result in order"); }
  std::vector<double> out(4, 0); auto g = [&](const int &i) { out[i] += v[i]; }; albatross::apply(xs, g, p.get()); done(""); for (int i = 0; i < 4; i++) symx::check_eq(out[i], i < n ? v[i] : 0., "all tasks have finished");
}
HARNESS(maps) {
  int n = symx::choose("n", 0, 3); Vec v = vec("v", 4); std::map<int, int> xs; for (int i = 0; i < n; i++) xs[7 - i] = i; auto p = pool_of(threads(2)); int kind = symx::choose("kind", 0, 3); std::vector<double> out(4, 0);
  auto ok = [&](auto &r) { symx::check((int)r.size() == n, "one result per key"); for (int i = 0; i < n; i++) symx::check_eq(r.at(7 - i), v[i] + (kind == 1 ? 7 - i : 0), "result under its key"); };
  if (kind == 0) { auto r = albatross::apply(xs, [&](const int &i) { return v[i]; }, p.get()); ok(r); }
  else if (kind == 1) { auto r = albatross::apply(xs, [&](const int &k, const int &i) { return v[i] + k; }, p.get()); ok(r); }
  else if (kind == 2) { albatross::apply(xs, [&](const int &i) { out[i] += v[i]; }, p.get()); for (int i = 0; i < 4; i++) symx::check_eq(out[i], i < n ? v[i] : 0., "all tasks have finished"); }
  else { albatross::apply(xs, [&](const int &k, const int &i) { out[7 - k] += v[i]; }, p.get()); for (int i = 0; i < 4; i++) symx::check_eq(out[i], i < n ? v[i] : 0., "all tasks have finished, with keys"); }
  done("");
}
HARNESS(groups) {
  Vec v = vec("v", 4); std::vector<int> xs = {0, 1, 2, 3}; int key[4]; for (int i = 0; i < 4; i++) key[i] = symx::choose(nm("g", i).c_str(), 0, i == 0 ? 0 : 1); auto p = pool_of(threads(2)); auto g = group_by(xs, [&](int i) { return key[i]; }); auto sum = [&](const std::vector<int> &e) { double s = 0; for (int i : e) s += v[i]; return s; };
  int kind = symx::choose("kind", 0, 2); double expect[2] = {0, 0}; bool present[2] = {false, false}; for (int i = 0; i < 4; i++) { expect[key[i]] += v[i]; present[key[i]] = true; }
  if (kind == 0) { auto r = g.groups().apply(sum, p.get()); symx::check((int)r.size() == present[0] + present[1], "one result per group"); for (int k = 0; k < 2; k++) if (present[k]) symx::check_eq(r.at(k), expect[k], "group result"); }
  else if (kind == 1) { auto r = g.apply([&](const int &k, const std::vector<int> &e) { return sum(e) + k; }, p.get()); for (int k = 0; k < 2; k++) if (present[k]) symx::check_eq(r.at(k), expect[k] + k, "group result with key"); }
  else { std::vector<double> out(2, 0); g.apply([&](const int &k, const std::vector<int> &e) { out[k] += sum(e); }, p.get()); for (int k = 0; k < 2; k++) symx::check_eq(out[k], expect[k], "group visit"); }
  done("");
}
HARNESS(square_matrix) {
  int n = symx::choose("n", 0, 3), t = threads(4); sym_kernel(n ? n : 1); auto p = pool_of(t); TableCov c; auto x = pts(0, n); Mat C = c(x, p.get()); done(""); symx::check(C.rows() == n && C.cols() == n, "size"); if (C.rows() == n) symx::check_mat(C, table(x, x), "covariance matrix");
}
HARNESS(larger_square_matrix) {
  int n = 4 + symx::choose("n", 0, 4), t = 2; sym_kernel(n); auto p = pool_of(t); TableCov c; auto x = pts(0, n); Mat C = c(x, p.get()); symx::check_mat(C, table(x, x), "covariance matrix"); done("");
}
struct Formula : public CovarianceFunction<Formula> { double s; std::string name() const { return "formula"; } double _call_impl(const Pt &a, const Pt &b) const { return s * (a.id + b.id) + a.id * b.id; } };
HARNESS(many_sizes) {
  int n = symx::choose("n", 0, 20), t = symx::choose("threads", 1, 6); auto p = pool_of(t); ThreadPool::adversarial = false; Formula c; c.s = rl("s", -2, 2); auto x = pts(0, n), y = pts(1, n / 2); Mat C = c(x, p.get()), X = c(x, y, p.get()); done(""); symx::check(C.rows() == n && C.cols() == n && X.rows() == n && X.cols() == n / 2, "sizes"); for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) symx::check_eq(C(i, j), c(x[i], x[j]), "every entry"); for (int j = 0; j < n / 2; j++) symx::check_eq(X(i, j), c(x[i], y[j]), "every cross entry"); }
}
HARNESS(cross_matrix) {
  int n = symx::choose("n", 0, 2), m = symx::choose("m", 0, 4), t = threads(m > 2 ? 3 : 4); sym_kernel(8); auto p = pool_of(t); TableCov c; auto x = pts(0, n), y = pts(3, m); Mat C = c(x, y, p.get()); done(""); symx::check(C.rows() == n && C.cols() == m, "size"); if (C.rows() == n && C.cols() == m) symx::check_mat(C, table(x, y), "cross covariance matrix");
}
HARNESS(block_solve) {
  int nb = symx::choose("blocks", 1, 3); std::vector<int> sz; int n = 0; for (int i = 0; i < nb; i++) { int s = i == 0 ? symx::choose("size", 1, 2) : 1; sz.push_back(s); n += s; } auto p = pool_of(threads(3));
  BlockDiagonal A; int at = 0; Mat D = Mat::Zero(n, n); for (int i = 0; i < nb; i++) { Mat b(sz[i], sz[i]); for (int r = 0; r < sz[i]; r++) for (int c = 0; c <= r; c++) b(r, c) = b(c, r) = r == c ? rl(nm("a", at + r, at + c), 1, 4) : rl(nm("a", at + r, at + c), -0.5, 0.5); D.block(at, at, sz[i], sz[i]) = b; A.blocks.push_back(b); at += sz[i]; }
  int rc = symx::choose("cols", 1, 2); Mat rhs(n, rc); for (int i = 0; i < n; i++) for (int j = 0; j < rc; j++) rhs(i, j) = rl(nm("b", i, j), -3, 3);
  one_of(2); auto l = A.ldlt(); l.solve(rhs); l.sqrt_solve(rhs); // (first use initialises statics)
  Mat s = l.solve(rhs, p.get()); done(""); Mat r = mul(D, s); symx::check_mat(r, rhs, "block solve"); Mat q = l.sqrt_solve(rhs, p.get()); done(""); symx::check_mat(mul(q.transpose(), q), mul(rhs.transpose(), s), "block square root solve"); symx::check_mat(q, l.sqrt_solve(rhs), "same as serial square root solve");
}
HARNESS(inverse_blocks) {
  num_kernel(3); Mat A = table(pts(0, 3), pts(0, 3)); for (int i = 0; i < 3; i++) A(i, i) += 1; auto p = pool_of(threads(3)); Eigen::SerializableLDLT l(A); std::vector<std::vector<std::size_t>> b; int k = symx::choose("k", 0, 2); if (k == 0) b = {{0}, {1}, {2}}; else if (k == 1) b = {{2, 0}, {1}}; else b = {{1, 2}, {0, 1}};
  auto r = l.inverse_blocks(b, p.get()); done(""); Mat I = inv(A); symx::check(r.size() == b.size(), "one inverse block each"); for (size_t i = 0; i < b.size(); i++) for (size_t x = 0; x < b[i].size(); x++) for (size_t y = 0; y < b[i].size(); y++) symx::check_eq(r[i](x, y), I(b[i][x], b[i][y]), "inverse block");
}
HARNESS(held_out) {
  zero_tables(); num_kernel(3); Mat A = table(pts(0, 3), pts(0, 3)); JointDistribution prior(vec("m", 3), A); Vec w(3); w << 0.5, 1, 2; MarginalDistribution truth(vec("y", 3), w); auto p = pool_of(threads(2)); int key[3]; for (int i = 0; i < 3; i++) key[i] = symx::choose(nm("g", i).c_str(), 0, i ? 1 : 0); GroupIndexer<int> gi; for (int i = 0; i < 3; i++) gi[key[i]].push_back(i); if (gi.size() < 2) return;
  one_of(3); auto a = leave_one_group_out_conditional_joints(prior, truth, gi, p.get()); done(""); auto b = leave_one_group_out_conditional_joints(prior, truth, gi); symx::check(a.size() == b.size(), "one prediction per group"); for (auto &kv : b) { check_vec(a.at(kv.first).mean, kv.second.mean, "held out mean"); symx::check_mat(a.at(kv.first).covariance, kv.second.covariance, "held out covariance"); }
  auto m = leave_one_group_out_conditional_marginals(prior, truth, gi, p.get()); done(""); for (auto &kv : b) { check_vec(m.at(kv.first).mean, kv.second.mean, "held out marginal mean"); for (int i = 0; i < kv.second.mean.size(); i++) symx::check_eq(m.at(kv.first).covariance.diagonal()[i], kv.second.covariance(i, i), "held out variance"); } auto v = leave_one_group_out_conditional_means(prior, truth, gi, p.get()); for (auto &kv : b) check_vec(v.at(kv.first), kv.second.mean, "held out mean alone"); done("");
}
HARNESS(model_pool) {
  zero_tables(); num_kernel(4); for (int i = 0; i < 4; i++) { W[i] = 0.5; M[i] = rl(nm("m", i), -2, 2); } int n = symx::choose("n", 2, 3); auto gp = table_gp(), ref = table_gp(); auto p = pool_of(2); gp.set_thread_pool(p); RegressionDataset<Pt> d(pts(0, n), MarginalDistribution(vec("y", n)));
  one_of(2); auto a = gp.fit(d).predict(pts(1, 3)).joint(); done(""); auto b = ref.fit(d).predict(pts(1, 3)).joint(); check_vec(a.mean, b.mean, "prediction with a pool"); symx::check_mat(a.covariance, b.covariance, "covariance with a pool");
  auto lo = [](const Pt &q) { return q.id % 2; }; auto x = gp.cross_validate().predict(d, lo).marginal(); done(""); auto y = ref.cross_validate().predict(d, lo).marginal(); check_vec(x.mean, y.mean, "cross validation with a pool"); for (int i = 0; i < n; i++) symx::check_eq(x.covariance.diagonal()[i], y.covariance.diagonal()[i], "cross validated variance with a pool");
}
HARNESS(gradient) {
  int n = symx::choose("n", 0, 3); Vec x = vec("x", 3); std::vector<double> ps; for (int i = 0; i < n; i++) ps.push_back(x[i]); auto p = pool_of(threads(2)); auto f = [&](const std::vector<double> &q) { double s = 0; for (int i = 0; i < (int)q.size(); i++) s += (i + 1) * q[i]; return s; };
  auto g = compute_gradient(f, ps, f(ps), p.get()); done(""); symx::check((int)g.size() == n, "one derivative per parameter"); for (int i = 0; i < n; i++) symx::check_eq(g[i], i + 1., "derivative", 1e-4);
}
HARNESS(pool_sizes) {
  symx::check(make_shared_thread_pool(1) == nullptr, "one thread means serial"); symx::check(get_thread_count(nullptr) == 1, "no pool counts one thread"); auto p = make_shared_thread_pool(3); symx::check(p != nullptr && get_thread_count(p) == 3, "pool size as asked"); symx::check(get_default_thread_count() >= 1, "default is positive"); auto q = make_shared_thread_pool(); symx::check(get_thread_count(q) == get_default_thread_count() || q == nullptr, "default pool");
}
