// @bounds: up to 3 rows with every number symbolic, flat and nested features written through XML or a map of their own, rows with different columns, metadata on the dataset, the predictions or both, marginal and joint predictions, two and five datasets, seekable and plain streams; matrices up to 3 by 3; distributions of up to 3 entries; 24 rows
// @assume: texts hold no commas, quotes or line breaks; how a number is spelled is outside (each number written becomes a token which stands for it)
// @flags: -D_GLIBCXX_EXTERN_TEMPLATE=0
#include <cstddef>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <ostream>
#include <string>
#include <vector>
// a number is written as a token; the table says which value the token stands for
namespace hx { inline std::vector<double> told; inline std::string token(double v) { told.push_back(v); return "#" + std::to_string(told.size() - 1); } }
namespace std {
template <> template <> inline ostream &ostream::_M_insert<double>(double v) { return *this << hx::token(v); }
inline string symx_to_string(double v) { return hx::token(v); } inline string symx_to_string(int v) { return to_string(v); } inline string symx_to_string(size_t v) { return to_string(v); } inline string symx_to_string(unsigned v) { return to_string(v); } inline string symx_to_string(long v) { return to_string(v); }
}
#include "symx.h"
#include <sstream>
#include <iostream>
#define to_string symx_to_string
#define ALBATROSS_CEREAL_SUITESPARSE_H
#define ALBATROSS_CEREAL_SERIALIZABLE_SPQR_H
#include <albatross/Core>
#include <albatross/Dataset>
#include <albatross/Graph>
#include <albatross/utils/CsvUtils>
#undef to_string
#include "arch.hpp"
#include "common.hpp"
using namespace albatross; using namespace hx;
static void eq(double a, double b, const char *l) { symx::check_eq(a, b, l, 1e-9); }
static std::vector<std::string> cut(const std::string &s, char at) { std::vector<std::string> r(1); for (char c : s) if (c == at) r.emplace_back(); else r.back().push_back(c); return r; }
struct Table { std::vector<std::string> head; std::vector<std::vector<std::string>> rows; bool ok = true;
  int col(const std::string &n) const { for (size_t i = 0; i < head.size(); i++) if (head[i] == n) return int(i); return -1; } };
static Table parse(const std::string &s, bool header = true) { Table t; auto lines = cut(s, '\n'); symx::check(!lines.empty() && lines.back().empty(), "ends with a line break"); if (!lines.empty()) lines.pop_back(); for (size_t i = 0; i < lines.size(); i++) { auto c = cut(lines[i], ','); if (i == 0 && header) t.head = c; else t.rows.push_back(c); } for (auto &r : t.rows) if (header && r.size() != t.head.size()) t.ok = false; symx::check(t.ok, "as many cells as columns in every row"); for (size_t i = 0; i < t.head.size(); i++) for (size_t j = 0; j < i; j++) symx::check(t.head[i] != t.head[j], "no column twice"); return t; }
static void number(const std::string &cell, double want, const char *l) { bool tok = cell.size() > 1 && cell[0] == '#'; size_t k = 0; for (size_t i = 1; i < cell.size(); i++) { tok = tok && cell[i] >= '0' && cell[i] <= '9'; k = 10 * k + size_t(cell[i] - '0'); } symx::check(tok && k < told.size(), l); if (tok && k < told.size()) eq(told[k], want, l); }
static void cell(const Table &t, size_t row, const char *name, double want, const char *l) { int c = t.col(name); symx::check(c >= 0 && row < t.rows.size(), l); if (c >= 0 && row < t.rows.size() && size_t(c) < t.rows[row].size()) number(t.rows[row][size_t(c)], want, l); }
static void text(const Table &t, size_t row, const char *name, const std::string &want, const char *l) { int c = t.col(name); symx::check(c >= 0 && row < t.rows.size(), l); if (c >= 0 && row < t.rows.size() && size_t(c) < t.rows[row].size()) symx::check(t.rows[row][size_t(c)] == want, l); }
namespace fx {
struct Inner { double a; std::string s; template <class A> void serialize(A &ar, const std::uint32_t) { ar(cereal::make_nvp("a", a), cereal::make_nvp("s", s)); } };
struct Outer { Inner left, right; double z; template <class A> void serialize(A &ar, const std::uint32_t) { ar(cereal::make_nvp("left", left), cereal::make_nvp("right", right), cereal::make_nvp("z", z)); } };
struct Feature { double x; Inner in; Outer deep; int n; template <class A> void serialize(A &ar, const std::uint32_t) { ar(cereal::make_nvp("x", x), cereal::make_nvp("in", in), cereal::make_nvp("deep", deep), cereal::make_nvp("n", n)); } };
struct Own { int kind; double v; };
}
namespace fx { inline std::map<std::string, std::string> to_map(const Own &f) { std::map<std::string, std::string> m; m[f.kind == 0 ? "even" : f.kind == 1 ? "odd" : "zz"] = hx::token(f.v); m["kind"] = std::to_string(f.kind); return m; } }
using fx::Feature; using fx::Own;
struct Rows { int n; Vec t, tv, p, pv; MarginalDistribution targets, pred; JointDistribution joint; };
static Rows make(int n, const char *tag = "") { Rows r; r.n = n; std::string g = tag; r.t = vec(("t" + g).c_str(), n); r.tv = vec(("tv" + g).c_str(), n, 0, 3); r.p = vec(("p" + g).c_str(), n); r.pv = vec(("pv" + g).c_str(), n, 0, 3); r.targets = MarginalDistribution(r.t, r.tv); r.pred = MarginalDistribution(r.p, r.pv); Mat C = Mat::Ones(n, n); for (int i = 0; i < n; i++) C(i, i) = r.pv[i]; r.joint = JointDistribution(r.p, C); return r; }
static void judge(const Table &t, const Rows &r, size_t from = 0) { for (int i = 0; i < r.n; i++) { cell(t, from + i, "target", r.t[i], "target of the row"); cell(t, from + i, "target_variance", r.tv[i], "variance of the row's target"); cell(t, from + i, "prediction", r.p[i], "prediction of the row"); cell(t, from + i, "prediction_variance", r.pv[i], "variance of the row's prediction"); } }
struct Plain : public std::streambuf { std::string s; std::streamsize xsputn(const char *p, std::streamsize n) override { s.append(p, size_t(n)); return n; } int_type overflow(int_type c) override { s.push_back(char(c)); return c; } }; // cannot seek

HARNESS(numbers) {
  told.clear(); int n = symx::choose("n", 1, 3); Rows r = make(n); std::vector<double> f; for (int i = 0; i < n; i++) f.push_back(rl(nm("f", i), -5, 5)); RegressionDataset<double> d(f, r.targets); int how = symx::choose("how", 0, 2); std::ostringstream os; if (how == 0) write_to_csv(os, d, r.pred); else if (how == 1) write_to_csv(os, d, r.joint); else write_to_csv(os, d); if (how == 2) { r.p.setZero(); r.pv.setZero(); }
  Table t = parse(os.str()); symx::check(int(t.rows.size()) == n, "one line per entry"); symx::check(t.head.size() == 5, "feature, target and prediction columns"); judge(t, r); for (int i = 0; i < n; i++) cell(t, i, "feature", f[i], "feature of the row");
}
HARNESS(no_header) { told.clear(); Rows r = make(2); std::vector<double> f = {1, 2}; RegressionDataset<double> d(f, r.targets); std::ostringstream a, b; write_to_csv(a, d, r.pred, true); write_to_csv(b, d, r.pred, false); auto la = cut(a.str(), '\n'), lb = cut(b.str(), '\n'); symx::check(la.size() == 4 && lb.size() == 3, "no header when none is asked for"); if (la.size() != 4 || lb.size() != 3) return; auto ca = cut(la[0], ','); for (int i = 0; i < 2; i++) { auto c = cut(lb[i], ','); symx::check(c.size() == ca.size(), "same columns without a header"); for (size_t k = 0; k < c.size() && k < ca.size(); k++) if (ca[k] == "target") number(c[k], r.t[i], "same order without a header"); } }
HARNESS(plain_stream) { // streams which cannot seek (pipes, terminals) get the same rows
  told.clear(); int n = symx::choose("n", 1, 2); Rows r = make(n); std::vector<double> f; for (int i = 0; i < n; i++) f.push_back(rl(nm("f", i), -5, 5)); RegressionDataset<double> d(f, r.targets); Plain buf; std::ostream os(&buf); os << ""; write_to_csv(os, d, r.pred); symx::check(bool(os), "stream is still good"); Table t = parse(buf.s); symx::check(int(t.rows.size()) == n, "one line per entry, plain stream"); judge(t, r); for (int i = 0; i < n; i++) cell(t, i, "feature", f[i], "feature of the row, plain stream");
}
HARNESS(after_other_output) { told.clear(); Rows r = make(1); std::vector<double> f = {1}; RegressionDataset<double> d(f, r.targets); std::ostringstream os; os << "first line\n"; write_to_csv(os, d, r.pred); std::string s = os.str(); symx::check(s.substr(0, 11) == "first line\n", "earlier output stays"); Table t = parse(s.substr(11)); judge(t, r); symx::check(t.rows.size() == 1, "one line"); os << "next"; symx::check(os.str().substr(os.str().size() - 5) == "\nnext", "later output follows"); }
HARNESS(nothing) { told.clear(); Rows r = make(1); RegressionDataset<double> none(std::vector<double>{}, MarginalDistribution(Vec(0))); std::vector<double> f = {1}; RegressionDataset<double> d(f, r.targets); std::ostringstream os; write_to_csv(os, none, false); symx::check(os.str().empty(), "no entries, no lines"); write_to_csv(os, d, r.pred); symx::check(bool(os), "stream is still good after an empty dataset"); Table t = parse(os.str()); symx::check(t.rows.size() == 1, "entries after an empty dataset"); judge(t, r); }
HARNESS(nested) {
  told.clear(); int n = symx::choose("n", 1, 2); Rows r = make(n); std::vector<Feature> f; for (int i = 0; i < n; i++) { Feature x; x.x = rl(nm("x", i), -5, 5); x.in = {rl(nm("ia", i), -5, 5), i ? "two" : "one"}; x.deep = {{rl(nm("la", i), -5, 5), "l"}, {rl(nm("ra", i), -5, 5), i ? "rr" : "r"}, rl(nm("z", i), -5, 5)}; x.n = 3 + i; f.push_back(x); } RegressionDataset<Feature> d(f, r.targets); std::ostringstream os; write_to_csv(os, d, r.pred); Table t = parse(os.str()); symx::check(int(t.rows.size()) == n, "one line per feature"); size_t leaves = 0; for (auto &h : t.head) leaves += h.find("cereal_class_version") == std::string::npos; symx::check(leaves == 13, "one column per leaf"); judge(t, r);
  for (int i = 0; i < n; i++) { cell(t, i, "x", f[i].x, "field"); cell(t, i, "in.a", f[i].in.a, "field of a part"); text(t, i, "in.s", f[i].in.s, "text of a part"); cell(t, i, "deep.left.a", f[i].deep.left.a, "field of a part of a part"); cell(t, i, "deep.right.a", f[i].deep.right.a, "field of its sibling"); text(t, i, "deep.right.s", f[i].deep.right.s, "text of a part of a part"); cell(t, i, "deep.z", f[i].deep.z, "field after parts"); text(t, i, "n", std::to_string(3 + i), "whole number"); }
}
HARNESS(different_columns) { told.clear(); int n = 3; Rows r = make(n); std::vector<Own> f; for (int i = 0; i < n; i++) f.push_back({symx::choose(nm("kind", i).c_str(), 0, 2), rl(nm("v", i), -5, 5)}); RegressionDataset<Own> d(f, r.targets); std::ostringstream os; write_to_csv(os, d, r.pred); Table t = parse(os.str()); symx::check(t.rows.size() == 3, "one line per entry, different columns"); judge(t, r); static const char *names[3] = {"even", "odd", "zz"}; for (int i = 0; i < n; i++) { text(t, i, "kind", std::to_string(f[i].kind), "common column"); cell(t, i, names[f[i].kind], f[i].v, "own column"); for (int k = 0; k < 3; k++) { bool any = false; for (auto &x : f) any |= x.kind == k; symx::check((t.col(names[k]) >= 0) == any, "columns of every row"); if (any && k != f[i].kind) text(t, i, names[k], "", "blank where a row lacks the column"); } } }
HARNESS(metadata) {
  told.clear(); Rows r = make(2); std::vector<double> f = {1, 2}; RegressionDataset<double> d(f, r.targets); bool a = symx::choose("on_data", 0, 1), b = symx::choose("on_prediction", 0, 1), both = symx::choose("shared", 0, 1); if (a) d.metadata["station"] = "s1"; if (b) r.pred.metadata["model"] = "m1"; if (both) { d.metadata["time"] = "data"; r.pred.metadata["time"] = "prediction"; } std::ostringstream os; write_to_csv(os, d, r.pred); Table t = parse(os.str()); judge(t, r); symx::check(t.head.size() == 5u + a + b + both, "one column per piece of metadata"); for (int i = 0; i < 2; i++) { if (a) text(t, i, "station", "s1", "metadata of the dataset"); if (b) text(t, i, "model", "m1", "metadata of the predictions"); if (both) text(t, i, "time", "prediction", "the predictions' metadata wins"); cell(t, i, "feature", f[i], "feature beside metadata"); }
}
HARNESS(several) {
  told.clear(); int n = symx::choose("n", 1, 2), m = symx::choose("m", 1, 2); Rows r = make(n, "A"), s = make(m, "B"); std::vector<Own> f, g; for (int i = 0; i < n; i++) f.push_back({0, rl(nm("f", i), -5, 5)}); int kind = symx::choose("kind", 0, 1); for (int i = 0; i < m; i++) g.push_back({kind, rl(nm("g", i), -5, 5)}); RegressionDataset<Own> d(f, r.targets), e(g, s.targets); bool meta = symx::choose("meta", 0, 1); if (meta) { d.metadata["source"] = "d"; e.metadata["origin"] = "e"; } std::ostringstream os; write_to_csv(os, std::vector<RegressionDataset<Own>>{d, e}, std::vector<MarginalDistribution>{r.pred, s.pred}); Table t = parse(os.str()); symx::check(int(t.rows.size()) == n + m, "the lines of every dataset"); judge(t, r); judge(t, s, n);
  for (int i = 0; i < n; i++) { cell(t, i, "even", f[i].v, "first dataset's feature"); if (meta) { text(t, i, "source", "d", "first dataset's metadata"); text(t, i, "origin", "", "blank where a dataset lacks the column"); } } for (int i = 0; i < m; i++) { cell(t, n + i, kind ? "odd" : "even", g[i].v, "second dataset's feature"); if (meta) text(t, n + i, "origin", "e", "second dataset's metadata"); }
}
HARNESS(several_first_empty) { told.clear(); Rows r = make(1); RegressionDataset<double> none(std::vector<double>{}, MarginalDistribution(Vec(0))), d(std::vector<double>{4}, r.targets); std::ostringstream os; write_to_csv(os, std::vector<RegressionDataset<double>>{none, d}, std::vector<MarginalDistribution>{MarginalDistribution(Vec(0)), r.pred}); Table t = parse(os.str()); symx::check(t.rows.size() == 1, "an empty dataset adds no line"); judge(t, r); }
HARNESS(length_mismatch) { told.clear(); int n = symx::choose("n", 1, 3); Rows r = make(2, "A"), s = make(n, "B"); std::vector<double> f = {1, 2}; RegressionDataset<double> d(f, r.targets); symx::check(d.size() == 2, "reached"); if (n != 2) symx_allow_abort_(1); std::ostringstream os; write_to_csv(os, d, s.pred); symx::check(n == 2, "predictions of another length are refused"); }
HARNESS(matrix) { told.clear(); int r = symx::choose("r", 1, 3), c = symx::choose("c", 1, 3); Mat A(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) A(i, j) = rl(nm("a", i, j), -5, 5); std::ostringstream os; write_to_csv(os, A); auto lines = cut(os.str(), '\n'); symx::check(int(lines.size()) == r, "one line per row"); for (int i = 0; i < r && i < int(lines.size()); i++) { auto cs = cut(lines[i], ','); symx::check(int(cs.size()) == c, "one cell per column"); for (int j = 0; j < c && j < int(cs.size()); j++) number(cs[j], A(i, j), "entry of the matrix"); } Vec v = A.col(0); std::ostringstream ov; write_to_csv(ov, v); auto lv = cut(ov.str(), '\n'); symx::check(int(lv.size()) == r, "one line per entry of a vector"); for (int i = 0; i < r && i < int(lv.size()); i++) number(lv[i], v[i], "entry of the vector"); }
HARNESS(feature_map) { told.clear(); double x = rl("x", -5, 5); auto m = albatross::to_map(x); symx::check(m.size() == 1 && m.count("feature") == 1, "a number is one column"); double t = rl("t", -5, 5), tv = rl("tv", 0, 5), p = rl("p", -5, 5), pv = rl("pv", 0, 5); auto r = albatross::to_map(x, t, tv, p, pv); symx::check(r.size() == 5, "five columns"); if (r.size() == 5) { number(r["feature"], x, "feature"); number(r["target"], t, "target"); number(r["target_variance"], tv, "variance of the target"); number(r["prediction"], p, "prediction"); number(r["prediction_variance"], pv, "variance of the prediction"); } }
static std::vector<std::string> words(const std::string &s) { std::vector<std::string> r; std::string w; for (char c : s) if (c == ' ' || c == '\n') { if (!w.empty()) r.push_back(w); w.clear(); } else w.push_back(c); if (!w.empty()) r.push_back(w); return r; }
HARNESS(print_distributions) { // printed to the given stream, nowhere else
  told.clear(); std::ostringstream os, other; auto *old = std::cout.rdbuf(other.rdbuf()); int n = symx::choose("n", 1, 3); Rows r = make(n); bool joint = symx::choose("joint", 0, 1); if (joint) os << r.joint; else os << r.pred; std::cout.rdbuf(old); symx::check(other.str().empty(), "nothing goes to another stream"); auto w = words(os.str());
  if (joint) { symx::check(int(w.size()) == n * (n + 1), "mean and covariance of each entry"); if (int(w.size()) == n * (n + 1)) for (int i = 0; i < n; i++) { number(w[i * (n + 1)], r.p[i], "printed mean"); for (int j = 0; j < n; j++) number(w[i * (n + 1) + 1 + j], i == j ? r.pv[i] : 1, "printed covariance"); } }
  else { symx::check(int(w.size()) == 4 * n, "a line per entry"); if (int(w.size()) == 4 * n) for (int i = 0; i < n; i++) { symx::check(w[4 * i] == std::to_string(i), "index"); number(w[4 * i + 1], r.p[i], "printed mean, marginal"); number(w[4 * i + 3], std::sqrt(r.pv[i]), "printed deviation"); } }
}
HARNESS(large) { // more rows
  told.clear(); int n = 24; Rows r; r.n = n; r.t = big_vec("t", n, 3); r.tv = big_noise(n); r.p = big_vec("p", n, 3); r.pv = big_noise(n); for (int i = 0; i < n; i++) { r.pv[i] += 0.0625 * i; } r.targets = MarginalDistribution(r.t, r.tv); r.pred = MarginalDistribution(r.p, r.pv); std::vector<Own> f; for (int i = 0; i < n; i++) f.push_back({(i * 5) % 3, 0.5 * i - 3}); RegressionDataset<Own> d(f, r.targets); std::ostringstream os; write_to_csv(os, d, r.pred); Table t = parse(os.str()); symx::check(int(t.rows.size()) == n, "one line per each of many entries"); judge(t, r); for (int i = 0; i < n; i++) { static const char *col[3] = {"even", "odd", "zz"}; for (int k = 0; k < 3; k++) if (k == f[i].kind) cell(t, i, col[k], f[i].v, "own column of many"); else text(t, i, col[k], "", "blank elsewhere, of many"); }
}
HARNESS(many_datasets) { // each with columns of its own, some of a single entry
  told.clear(); static const int kinds[5] = {0, 0, 1, 2, 0}; int short_one = symx::choose("short", 0, 4); std::vector<RegressionDataset<Own>> ds; std::vector<MarginalDistribution> ps; std::vector<Rows> rs; std::vector<std::vector<Own>> fs; static const char *names[3] = {"even", "odd", "zz"}, *tag[5] = {"A", "B", "C", "D", "E"};
  for (int k = 0; k < 5; k++) { int n = k == short_one ? 2 : 1; rs.push_back(make(n, tag[k])); std::vector<Own> f; for (int i = 0; i < n; i++) f.push_back({kinds[k], 1.5 * k - 2 + i}); fs.push_back(f); ds.emplace_back(f, rs.back().targets); ps.push_back(rs.back().pred); if (k == 4) ds.back().metadata["late"] = "yes"; }
  std::ostringstream os; write_to_csv(os, ds, ps); Table t = parse(os.str()); symx::check(t.rows.size() == 6, "the lines of many datasets"); symx::check(t.head.size() == 4u + 4 + 1, "the columns of many datasets"); if (t.rows.size() != 6) return; int at = 0;
  for (int k = 0; k < 5; k++) { judge(t, rs[k], at); for (auto &x : fs[k]) { cell(t, at, names[x.kind], x.v, "its own dataset's column"); for (int j = 0; j < 3; j++) if (j != x.kind) text(t, at, names[j], "", "blank in other datasets' columns"); text(t, at, "late", k == 4 ? "yes" : "", "metadata of one of many"); at++; } }
}
