// symx runtime: shadow expressions, canonical real arithmetic, path exploration
// by fork(), z3 queries, candidate counterexamples.
#include "rt.h"
#include "symx.h"
#include <cfloat>
#include <exception>
#include <poll.h>
#include <malloc.h>
#include <execinfo.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>

// ------------------------------------------------------------------ shared state
struct LabelStat { char name[96]; int harness; std::atomic<long> reached, proved, violated, inconcl, cand; };
struct HarnessStat { std::atomic<long> wits, paths, aborted_ok, infeasible, inconcl, fails, forks; double secs; };
struct Shared {
  std::atomic<int> tokens; std::atomic<long> nwit, queries, sat, unsat, unknown, helper, solver_us, slow, asserts, syntactic, cands, nlabels, exprs_max, maybe, icp;
  LabelStat labels[512]; HarnessStat h[64]; std::atomic<int> lock; double deadline; unsigned char cov[400000];
  char incmsg[200][160]; std::atomic<long> nincmsg;
};
static Shared *S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static bool g_exact = false, g_fp = false, g_allow_abort = false, g_has_token = false;
static int g_h = 0; static std::vector<std::pair<const char *, void (*)()>> *g_reg;
static std::string g_out = "."; static int g_pathmaybe = 0; static long g_rlimit = 3000000; static double g_helper_s = 10; static bool g_verbose = false;
static bool g_concrete = false; static std::map<std::string, std::string> g_assign;
namespace symx { Reg::Reg(const char *n, void (*f)()) { if (!g_reg) g_reg = new std::vector<std::pair<const char *, void (*)()>>(); g_reg->push_back({n, f}); } }
extern "C" { Expr *__sx_args[96]; void *__sx_callee; Expr *__sx_retslots[96]; void *__sx_retfn; extern const char *__sx_fn_names[]; extern int __sx_fn_count; }
static Expr *g_zero[96];

static void release_token() { if (g_has_token) { S->tokens++; g_has_token = false; } }
[[noreturn]] static void end_path() { release_token(); _exit(0); }
static void incmsg(const std::string &m) {
  long n = S->nincmsg++; if (n < 200) { snprintf(S->incmsg[n], 160, "%s: %s", g_concrete ? "" : (*g_reg)[g_h].first, m.c_str()); }
}
[[noreturn]] static void end_inconclusive(const std::string &why) {
  S->h[g_h].inconcl++; incmsg(why); if (g_verbose) fprintf(stderr, "[symx] inconclusive path: %s\n", why.c_str()); end_path();
}
static LabelStat *label(const char *l) {
  long n = S->nlabels;
  for (long i = 0; i < n; i++) if (S->labels[i].harness == g_h && !strcmp(S->labels[i].name, l)) return &S->labels[i];
  int z = 0; while (!S->lock.compare_exchange_weak(z, 1)) { z = 0; usleep(20); }
  n = S->nlabels; LabelStat *r = nullptr;
  for (long i = 0; i < n; i++) if (S->labels[i].harness == g_h && !strcmp(S->labels[i].name, l)) r = &S->labels[i];
  if (!r) { if (n >= 512) n = 511; r = &S->labels[n]; strncpy(r->name, l, 95); r->harness = g_h; if (n < 511) S->nlabels = n + 1; }
  S->lock = 0; return r;
}

// ------------------------------------------------------------------ monomials / polynomials
typedef std::vector<std::pair<int, int>> MV;
static std::vector<MV> monos; static std::map<MV, int> monoIdx; static std::vector<int> monoDeg;
static std::vector<Atom *> atoms;
static int mono(const MV &v) {
  auto it = monoIdx.find(v); if (it != monoIdx.end()) return it->second;
  int i = monos.size(); monos.push_back(v); int d = 0; for (auto &x : v) d += x.second; monoDeg.push_back(d); monoIdx[v] = i; return i;
}
static int monoMul(int a, int b) {
  if (a == 0) return b; if (b == 0) return a;
  MV r; auto &x = monos[a], &y = monos[b]; size_t i = 0, j = 0;
  while (i < x.size() || j < y.size()) {
    if (j == y.size() || (i < x.size() && x[i].first < y[j].first)) r.push_back(x[i++]);
    else if (i == x.size() || y[j].first < x[i].first) r.push_back(y[j++]);
    else { r.push_back({x[i].first, x[i].second + y[j].second}); i++; j++; }
  }
  return mono(r);
}
static int mono0 = mono({});
static bool monoDiv(int a, int b, int &q) { // a / b
  MV r; auto &x = monos[a], &y = monos[b]; size_t i = 0, j = 0;
  while (i < x.size()) {
    if (j < y.size() && y[j].first < x[i].first) return false;
    if (j == y.size() || x[i].first < y[j].first) { r.push_back(x[i++]); continue; }
    int e = x[i].second - y[j].second; if (e < 0) return false; if (e) r.push_back({x[i].first, e}); i++; j++;
  }
  if (j < y.size()) return false;
  q = mono(r); return true;
}
static bool monoGreater(int a, int b) { // graded lex
  if (a == b) return false; if (monoDeg[a] != monoDeg[b]) return monoDeg[a] > monoDeg[b];
  auto &x = monos[a], &y = monos[b]; size_t i = 0;
  while (i < x.size() && i < y.size()) {
    if (x[i].first != y[i].first) return x[i].first < y[i].first;
    if (x[i].second != y[i].second) return x[i].second > y[i].second;
    i++;
  }
  return x.size() > y.size();
}
static const size_t MAXTERMS = 6000;
typedef std::unordered_map<int, mpq_class> PM;
static std::unordered_map<u64, std::vector<Poly *>> polyTab; static uint32_t polyCnt = 0;
static Poly *internPoly(std::vector<std::pair<int, mpq_class>> &&t) {
  u64 h = 1469598103934665603ull;
  for (auto &x : t) { h = (h ^ x.first) * 1099511628211ull; h = (h ^ mpz_get_ui(x.second.get_num_mpz_t())) * 1099511628211ull; h = (h ^ mpz_get_ui(x.second.get_den_mpz_t())) * 1099511628211ull; h ^= sgn(x.second) * 7; }
  auto &v = polyTab[h]; for (auto *p : v) if (p->t == t) return p;
  auto *p = new Poly; p->id = polyCnt++; p->t = std::move(t); v.push_back(p); return p;
}
static Poly *reducePM(PM &m);
static Poly *fromPM(PM &m) {
  for (auto &kv : m) if (sgn(kv.second) != 0) for (auto &ae : monos[kv.first]) if (ae.second >= 2 && atoms[ae.first]->kind == A_SQRT) return reducePM(m);
  std::vector<std::pair<int, mpq_class>> t; for (auto &kv : m) if (sgn(kv.second) != 0) t.push_back({kv.first, kv.second});
  if (t.size() > MAXTERMS) throw Unsupported{"polynomial too large"};
  std::sort(t.begin(), t.end(), [](auto &a, auto &b) { return monoGreater(a.first, b.first); });
  return internPoly(std::move(t));
}
static Poly *pconst(const mpq_class &q) { std::vector<std::pair<int, mpq_class>> t; if (sgn(q) != 0) t.push_back({0, q}); return internPoly(std::move(t)); }
static Poly *patom(int a) { std::vector<std::pair<int, mpq_class>> t; t.push_back({mono({{a, 1}}), 1}); return internPoly(std::move(t)); }
static Poly *padd(Poly *a, Poly *b, int sign = 1) {
  PM m; for (auto &x : a->t) m[x.first] += x.second; for (auto &x : b->t) { if (sign > 0) m[x.first] += x.second; else m[x.first] -= x.second; } return fromPM(m);
}
static std::map<std::pair<uint32_t, uint32_t>, Poly *> pmulMemo;
static Poly *pmul(Poly *a, Poly *b) {
  if (a->id > b->id) std::swap(a, b);
  auto k = std::make_pair(a->id, b->id); auto it = pmulMemo.find(k); if (it != pmulMemo.end()) return it->second;
  if (a->t.size() * b->t.size() > 4000000) throw Unsupported{"polynomial product too large"};
  PM m; for (auto &x : a->t) for (auto &y : b->t) m[monoMul(x.first, y.first)] += x.second * y.second;
  Poly *r = fromPM(m); if (pmulMemo.size() > 200000) pmulMemo.clear(); pmulMemo[k] = r; return r;
}
static Poly *pscale(Poly *a, const mpq_class &q) { if (q == 1) return a; auto t = a->t; if (sgn(q) == 0) t.clear(); for (auto &x : t) x.second *= q; return internPoly(std::move(t)); }
static Poly *ppow(Poly *a, int e) { Poly *r = pconst(1); while (e > 0) { if (e & 1) r = pmul(r, a); a = e > 1 ? pmul(a, a) : a; e >>= 1; } return r; }
static Poly *reducePM(PM &m) { // s^2 -> sq(s)
  Poly *acc = pconst(0); PM rest; 
  for (auto &kv : m) {
    if (sgn(kv.second) == 0) continue;
    MV keep; Poly *f = nullptr;
    for (auto &ae : monos[kv.first]) {
      Atom *at = atoms[ae.first];
      if (at->kind == A_SQRT && ae.second >= 2) { Poly *g = ppow(at->sq, ae.second / 2); f = f ? pmul(f, g) : g; if (ae.second & 1) keep.push_back({ae.first, 1}); }
      else keep.push_back(ae);
    }
    if (!f) { rest[kv.first] += kv.second; continue; }
    PM one; one[mono(keep)] = kv.second; Poly *k = fromPM(one); acc = padd(acc, pmul(k, f));
  }
  Poly *r = fromPM(rest); return padd(r, acc);
}
static bool pIsConst(Poly *p, mpq_class *q = nullptr) { if (p->t.empty()) { if (q) *q = 0; return true; } if (p->t.size() == 1 && p->t[0].first == 0) { if (q) *q = p->t[0].second; return true; } return false; }
static bool pdivExact(Poly *n, Poly *d, Poly **out) {
  if (n->t.empty()) { *out = n; return true; }
  if (d->t.size() > n->t.size() && n->t.size() == 1) return false;
  for (auto &ae : monos[d->t[0].first]) (void)ae;
  int q; if (!monoDiv(n->t[0].first, d->t[0].first, q)) return false;
  if (!monoDiv(n->t.back().first, d->t.back().first, q)) return false; // trailing term must divide as well
  auto cmp = [](int a, int b) { return monoGreater(a, b); };
  std::map<int, mpq_class, decltype(cmp)> rem(cmp); for (auto &x : n->t) rem[x.first] = x.second;
  PM quo; size_t steps = 0;
  while (!rem.empty()) {
    auto it = rem.begin(); if (sgn(it->second) == 0) { rem.erase(it); continue; }
    int qm; if (!monoDiv(it->first, d->t[0].first, qm)) return false;
    if (++steps > 3000) return false;
    mpq_class c = it->second / d->t[0].second; quo[qm] += c;
    for (auto &y : d->t) { int mm = monoMul(qm, y.first); auto &z = rem[mm]; z -= c * y.second; if (sgn(z) == 0) rem.erase(mm); }
  }
  *out = fromPM(quo);
  return pmul(*out, d) == n;
}

// ------------------------------------------------------------------ expressions
static std::vector<Expr *> exprs; static std::unordered_map<u64, std::vector<Expr *>> exprTab;
static u64 mask(unsigned b) { return b >= 64 ? ~0ull : ((1ull << b) - 1); }
static i64 sx(u64 v, unsigned b) { return b >= 64 ? (i64)v : (i64)(v << (64 - b)) >> (64 - b); }
static Expr *mk(Sort s, int op, int bits, Expr *a = nullptr, Expr *b = nullptr, Expr *c = nullptr, u64 val = 0, Rat *r = nullptr, const std::string *nm = nullptr) {
  u64 h = s * 31 + op; h = h * 1000003 + bits; h = h * 1000003 + (u64)a; h = h * 1000003 + (u64)b; h = h * 1000003 + (u64)c; h = h * 1000003 + val; h ^= h >> 29;
  if (r) { h = h * 1000003 + (u64)r->num; for (auto &d : r->den) h = h * 1000003 + (u64)d.first + d.second; }
  if (nm) h ^= std::hash<std::string>()(*nm);
  auto &v = exprTab[h];
  for (auto *e : v) if (e->sort == s && e->op == op && e->bits == bits && e->a == a && e->b == b && e->c == c && e->val == val && ((!r && !e->r) || (r && e->r && r->num == e->r->num && r->den == e->r->den)) && ((!nm && !e->name) || (nm && e->name && *nm == *e->name))) return e;
  auto *e = new Expr{(uint32_t)exprs.size(), s, (uint16_t)op, (uint16_t)bits, a, b, c, val, r ? new Rat(*r) : nullptr, nm ? new std::string(*nm) : nullptr, nullptr, nullptr};
  exprs.push_back(e); v.push_back(e); return e;
}
static Expr *bvc(u64 v, unsigned bits) { return mk(BV, O_CONST, bits, 0, 0, 0, v & mask(bits)); }
static bool isC(Expr *e) { return e->op == O_CONST; }
static Expr *T() { return bvc(1, 1); }
static Expr *F_() { return bvc(0, 1); }
static Expr *bnot(Expr *a);
static Expr *mkbin(int op, unsigned bits, Expr *a, Expr *b);
static double q2d(const mpq_class &q) {
  double d = q.get_d(); if (!std::isfinite(d)) return d;
  mpq_class e0 = abs(q - mpq_class(d)); double up = std::nextafter(d, sgn(q) >= 0 ? INFINITY : -INFINITY);
  if (std::isfinite(up)) { mpq_class e1 = abs(q - mpq_class(up)); if (e1 < e0) return up; }
  return d;
}
static double b2d(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static u64 d2b(double d) { u64 v; memcpy(&v, &d, 8); return v; }
// ---- reals
static Expr *mkRat(Rat &r) { return mk(REAL, O_RAT, 64, 0, 0, 0, 0, &r); }
static Expr *rconst(const mpq_class &q) { Rat r{pconst(q), {}}; return mkRat(r); }
static Expr *rspec(double d) { if (std::isnan(d)) d = NAN; return mk(REAL, O_RSPEC, 64, 0, 0, 0, d2b(d)); }
static bool rIsConst(Expr *e, mpq_class *q = nullptr) { return e->op == O_RAT && e->r->den.empty() && pIsConst(e->r->num, q); }
static Expr *fromDouble(double d) { if (!std::isfinite(d)) return rspec(d); return rconst(mpq_class(d)); }
static std::vector<Poly *> factorBase;
static void denMul(std::vector<std::pair<Poly *, int>> &d, Poly *p, int e) {
  for (auto &x : d) if (x.first == p) { x.second += e; return; }
  d.push_back({p, e}); std::sort(d.begin(), d.end(), [](auto &a, auto &b) { return a.first->id < b.first->id; });
}
// adds factors of polynomial p (to power e) to den; the constant content is returned
static mpq_class denAddPoly(std::vector<std::pair<Poly *, int>> &d, Poly *p, int e, Poly *&num);
static bool isSqrtAtomPoly(Poly *p, Atom **at) {
  if (p->t.size() != 1 || p->t[0].second != 1) return false; auto &m = monos[p->t[0].first];
  if (m.size() != 1 || m[0].second != 1 || atoms[m[0].first]->kind != A_SQRT) return false; *at = atoms[m[0].first]; return true;
}
static mpq_class denAddPoly(std::vector<std::pair<Poly *, int>> &d, Poly *p, int e, Poly *&num) {
  mpq_class c = p->t[0].second; // make monic
  MV common = monos[p->t[0].first];
  for (auto &x : p->t) { MV n; auto &m = monos[x.first]; for (auto &a : common) for (auto &b : m) if (a.first == b.first) n.push_back({a.first, std::min(a.second, b.second)}); common = n; }
  mpq_class cpow = 1; for (int i = 0; i < e; i++) cpow *= c;
  p = pscale(p, 1 / c);
  if (!common.empty()) {
    int cm = mono(common); auto t = p->t; for (auto &x : t) { int q = 0; monoDiv(x.first, cm, q); x.first = q; }
    std::sort(t.begin(), t.end(), [](auto &a, auto &b) { return monoGreater(a.first, b.first); });
    p = internPoly(std::move(t));
    for (auto &a : common) denMul(d, patom(a.first), a.second * e);
  }
  if (!pIsConst(p)) {
    bool again = true;
    while (again && !pIsConst(p)) { again = false; for (auto *f : factorBase) { Poly *q; if (f != p && pdivExact(p, f, &q)) { denMul(d, f, e); p = q; again = true; break; } if (f == p) break; } }
    mpq_class k; if (pIsConst(p, &k)) { for (int i = 0; i < e; i++) cpow *= k; }
    else {
      mpq_class lc = p->t[0].second; if (lc != 1) { for (int i = 0; i < e; i++) cpow *= lc; p = pscale(p, 1 / lc); }
      if (std::find(factorBase.begin(), factorBase.end(), p) == factorBase.end() && factorBase.size() < 60) factorBase.push_back(p);
      denMul(d, p, e);
    }
  }
  // rationalise sqrt atoms: 1/s^k
  for (bool ch = true; ch;) {
    ch = false;
    for (size_t i = 0; i < d.size(); i++) {
      Atom *at; if (!isSqrtAtomPoly(d[i].first, &at)) continue;
      Poly *s = d[i].first; int k = d[i].second; d.erase(d.begin() + i);
      if (k & 1) { num = pmul(num, s); k++; }
      mpq_class cc = denAddPoly(d, at->sq, k / 2, num); cpow *= cc; ch = true; break;
    }
  }
  return cpow;
}
static void cancel(Rat &r) {
  if (r.num->t.empty()) { r.den.clear(); return; }
  for (size_t i = 0; i < r.den.size();) {
    Poly *q; bool gone = false;
    while (r.den[i].second > 0 && pdivExact(r.num, r.den[i].first, &q)) { r.num = q; if (--r.den[i].second == 0) { gone = true; break; } }
    if (gone) r.den.erase(r.den.begin() + i); else i++;
  }
}
static Poly *denPoly(const std::vector<std::pair<Poly *, int>> &d) { Poly *p = pconst(1); for (auto &x : d) p = pmul(p, ppow(x.first, x.second)); return p; }
static Expr *radd(Expr *a, Expr *b, int sign = 1) {
  if (a->op == O_RSPEC || b->op == O_RSPEC) {
    double x = a->op == O_RSPEC ? b2d(a->val) : 0, y = b->op == O_RSPEC ? b2d(b->val) : 0; return rspec(sign > 0 ? x + y : x - y);
  }
  Rat r; Poly *n1 = a->r->num, *n2 = b->r->num;
  if (a->r->den == b->r->den) { r.den = a->r->den; r.num = padd(n1, n2, sign); }
  else {
    r.den = a->r->den;
    for (auto &f : b->r->den) { bool found = false; for (auto &g : r.den) if (g.first == f.first) { found = true; g.second = std::max(g.second, f.second); } if (!found) denMul(r.den, f.first, f.second); }
    auto lift = [&](Poly *n, std::vector<std::pair<Poly *, int>> &d) { for (auto &f : r.den) { int have = 0; for (auto &g : d) if (g.first == f.first) have = g.second; if (f.second > have) n = pmul(n, ppow(f.first, f.second - have)); } return n; };
    r.num = padd(lift(n1, a->r->den), lift(n2, b->r->den), sign);
  }
  cancel(r); return mkRat(r);
}
static Expr *rneg(Expr *a) { if (a->op == O_RSPEC) return rspec(-b2d(a->val)); Rat r = *a->r; r.num = pscale(r.num, -1); return mkRat(r); }
static int decideSign(Expr *e, bool forkit); // -1,0,1
static Expr *rmul(Expr *a, Expr *b) {
  if (a->op == O_RSPEC || b->op == O_RSPEC) {
    double x = a->op == O_RSPEC ? b2d(a->val) : decideSign(a, true), y = b->op == O_RSPEC ? b2d(b->val) : decideSign(b, true); return rspec(x * y);
  }
  Rat r1 = *a->r, r2 = *b->r; std::swap(r1.den, r2.den); cancel(r1); cancel(r2); // cross cancellation
  Rat r; r.num = pmul(r1.num, r2.num); r.den = r1.den; for (auto &f : r2.den) denMul(r.den, f.first, f.second);
  cancel(r); return mkRat(r);
}
static Expr *rinv(Expr *a) {
  Rat r; r.num = denPoly(a->r->den); mpq_class c = denAddPoly(r.den, a->r->num, 1, r.num); r.num = pscale(r.num, 1 / c); cancel(r); return mkRat(r);
}
static Expr *atomExpr(int i) { if (!atoms[i]->ex) { Rat r{patom(i), {}}; atoms[i]->ex = mkRat(r); } return atoms[i]->ex; }
static std::map<std::string, int> atomTab;
static int newAtom(AKind k, const std::string &key, const std::string &nm, std::vector<Expr *> args, Poly *sq = nullptr, int known = 0) {
  auto it = atomTab.find(key); if (it != atomTab.end()) return it->second;
  int i = atoms.size(); atoms.push_back(new Atom{k, nm, args, sq, nullptr, nullptr, known}); atomTab[key] = i; return i;
}
static Expr *app(const std::string &fn, std::vector<Expr *> args, int known = 0) {
  std::string k = "app:" + fn; for (auto *a : args) k += ":" + std::to_string(a->id);
  return atomExpr(newAtom(A_APP, k, fn, args, nullptr, known));
}
static Expr *rcmp(int op, Expr *e); // e op 0 -> BV1
static bool branchOn(Expr *c);      // forks when undetermined
static Expr *nonneg(Expr *e) { return rcmp(O_RLE, rneg(e)); }
static Expr *rsqrtPoly(Poly *p) { // p > 0 known
  if (p->t.empty()) return rconst(0);
  mpq_class q;
  Expr *res = rconst(1);
  mpq_class c = p->t[0].second; 
  // content: use the leading coefficient's absolute value when it helps, sqrt(c)*sqrt(p/c)
  c = abs(c); 
  if (c != 1) {
    mpz_class n = c.get_num(), d = c.get_den(), nd = n * d, s; 
    if (mpz_perfect_square_p(nd.get_mpz_t())) { s = sqrt(nd); res = rconst(mpq_class(s) / mpq_class(d)); }
    else { Poly *cp = pconst(c); std::string k = "sqrt:" + std::to_string(cp->id); res = atomExpr(newAtom(A_SQRT, k, "sqrt", {}, cp, 1)); }
    p = pscale(p, 1 / c);
  }
  if (pIsConst(p)) return res;
  if (p->t.size() == 1 || true) {
    MV common = monos[p->t[0].first];
    for (auto &x : p->t) { MV n; auto &m = monos[x.first]; for (auto &a : common) for (auto &b : m) if (a.first == b.first) n.push_back({a.first, std::min(a.second, b.second)}); common = n; }
    MV use; for (auto &a : common) { // even powers leave as |a|, positive odd ones split
      Expr *ae = atomExpr(a.first);
      bool pos = atoms[a.first]->known == 1 || branchOn(rcmp(O_RLT, rneg(ae)));
      int e2 = a.second / 2;
      if (e2) { Expr *m = pos ? ae : rneg(ae); for (int i = 0; i < e2; i++) res = rmul(res, m); }
      if (pos || a.second % 2 == 0) { use.push_back({a.first, a.second}); if (a.second % 2) { Poly *ap = patom(a.first); std::string k = "sqrt:" + std::to_string(ap->id); res = rmul(res, atomExpr(newAtom(A_SQRT, k, "sqrt", {}, ap, 1))); } }
      else if (e2) use.push_back({a.first, 2 * e2});
    }
    if (!use.empty()) { int cm = mono(use); auto t = p->t; for (auto &x : t) { int qq = 0; monoDiv(x.first, cm, qq); x.first = qq; } std::sort(t.begin(), t.end(), [](auto &a, auto &b) { return monoGreater(a.first, b.first); }); p = internPoly(std::move(t)); }
  }
  if (pIsConst(p)) return res;
  for (auto *f : factorBase) { // square factors / known factors
    Poly *q1; if (f == p || !pdivExact(p, f, &q1)) continue;
    Rat rf{f, {}}; Expr *fe = mkRat(rf); Poly *q2;
    if (pdivExact(q1, f, &q2)) { bool pos = branchOn(nonneg(fe)); res = rmul(res, pos ? fe : rneg(fe)); return rmul(res, rsqrtPoly(q2)); }
  }
  std::string k = "sqrt:" + std::to_string(p->id);
  return rmul(res, atomExpr(newAtom(A_SQRT, k, "sqrt", {}, p, 1)));
}
static bool rootOfSquare(Poly *p, Poly **out); 
static Expr *rsqrt(Expr *a) {
  if (a->op == O_RSPEC) return rspec(std::sqrt(b2d(a->val)));
  if (a->r->num->t.empty()) return a;
  mpq_class q; if (rIsConst(a, &q)) { if (sgn(q) < 0) return rspec(NAN); }
  else {
    Poly *rt;
    if (a->r->den.empty() && rootOfSquare(a->r->num, &rt)) { Rat r{rt, {}}; Expr *e = mkRat(r); return branchOn(nonneg(e)) ? e : rneg(e); }
    if (!branchOn(rcmp(O_RLT, rneg(a)))) { if (branchOn(rcmp(O_REQ, a))) return rconst(0); return rspec(NAN); }
  }
  // a = n / prod f^e : multiply to even exponents
  Expr *res; std::vector<std::pair<Poly *, int>> dn = a->r->den; Poly *n = a->r->num; bool neg = false; Expr *dres = rconst(1);
  for (auto &f : dn) {
    Rat rf{f.first, {}}; Expr *fe = mkRat(rf);
    bool pos = branchOn(rcmp(O_RLT, rneg(fe)));
    Expr *m = pos ? fe : rneg(fe);
    for (int i = 0; i < f.second / 2; i++) dres = rmul(dres, m);
    if (f.second & 1) { if (!pos) neg = !neg; dres = rmul(dres, rsqrtPoly(m->r->num)); }
  }
  if (neg) n = pscale(n, -1);
  Poly *rt; 
  if (rootOfSquare(n, &rt)) { Rat r{rt, {}}; Expr *e = mkRat(r); res = branchOn(nonneg(e)) ? e : rneg(e); }
  else res = rsqrtPoly(n);
  if (dn.empty()) return res;
  return rmul(res, rinv(dres));
}
static bool rootOfSquare(Poly *p, Poly **out) { // p == out^2 ?  (plain polynomials only)
  if (p->t.size() < 2 || p->t.size() > 60) { return false; }
  auto sq = [](const mpq_class &c, mpq_class &r) { if (sgn(c) <= 0) return false; mpz_class n = c.get_num(), d = c.get_den(); if (!mpz_perfect_square_p(n.get_mpz_t()) || !mpz_perfect_square_p(d.get_mpz_t())) return false; mpz_class a = sqrt(n), b = sqrt(d); r = mpq_class(a, b); return true; };
  mpq_class lc; MV lm = monos[p->t[0].first]; for (auto &x : lm) { if (x.second & 1) return false; x.second /= 2; }
  if (!sq(p->t[0].second, lc)) return false;
  PM m; int L = mono(lm); m[L] = lc; Poly *r = fromPM(m);
  for (int it = 0; it < 40; it++) {
    Poly *d = padd(p, pmul(r, r), -1); if (d->t.empty()) { *out = r; return true; }
    int q; if (!monoDiv(d->t[0].first, L, q)) return false;
    if (!monoGreater(L, q)) return false;
    PM n; for (auto &x : r->t) n[x.first] = x.second; if (n.count(q)) return false; n[q] = d->t[0].second / (2 * lc); r = fromPM(n);
  }
  return false;
}
static Expr *asReal(u64 v, Expr *s, unsigned bits) {
  if (s) { if (s->sort == REAL) return s; if (s->sort == BV) { if (isC(s)) { v = s->val; } else throw Unsupported{"bit pattern used as double"}; } else throw Unsupported{"fp value in real arithmetic"}; }
  if (bits == 32) { float f; uint32_t w = v; memcpy(&f, &w, 4); return fromDouble(f); }
  return fromDouble(b2d(v));
}
static Expr *rpowi(Expr *a, long e); static Expr *atomExpr(int i);
static Expr *rexp(Expr *a) {
  if (a->op == O_RSPEC) return rspec(std::exp(b2d(a->val)));
  mpq_class q; if (rIsConst(a, &q)) { if (sgn(q) == 0) return rconst(1); if (!g_exact) return fromDouble(std::exp(q2d(q))); }
  if (a->r->den.empty()) { // exp(... + (k/2) log u) = ... sqrt(u)^k
    Expr *f = nullptr, *rest = a;
    for (auto &t : std::vector<std::pair<int, mpq_class>>(a->r->num->t.begin(), a->r->num->t.end())) { auto &m = monos[t.first]; if (m.size() != 1 || m[0].second != 1) continue; Atom *at = atoms[m[0].first]; if (at->kind != A_APP || at->name != "log") continue; mpq_class orig = t.second; { mpq_class h(floor(q2d(t.second) * 2 + 0.5)); h /= 2; if (sgn(h) && abs(h - t.second) * mpq_class(10000000000000L) < abs(h)) t.second = h; } if (t.second.get_den() > 2 || abs(t.second.get_num()) > 16) continue;
      Expr *u = at->args[0], *term = rmul(rconst(orig), atomExpr(m[0].first)); rest = radd(rest, term, -1); long e = mpz_get_si(t.second.get_num_mpz_t()); Expr *g = t.second.get_den() == 1 ? rpowi(u, e) : rpowi(rsqrt(u), e); f = f ? rmul(f, g) : g; }
    if (f) return rmul(f, rexp(rest)); }
  if (sgn(a->r->num->t[0].second) < 0) return rinv(app("exp", {rneg(a)}, 1));
  return app("exp", {a}, 1);
}
static Expr *rlogPos(Expr *a) { // a > 0 known
  mpq_class q; if (rIsConst(a, &q)) { if (q == 1) return rconst(0); if (!g_exact) return fromDouble(std::log(q2d(q))); return app("log", {a}); }
  Expr *res = rconst(0); bool neg = false;
  auto logFactor = [&](Poly *p, int e) { // p != 0; contributes e*log|p|
    Atom *at; Rat r{p, {}}; Expr *pe = mkRat(r); Expr *l;
    if (isSqrtAtomPoly(p, &at)) { Rat rs{at->sq, {}}; l = rmul(rconst(mpq_class(1, 2)), rlogPos(mkRat(rs))); }
    else {
      auto &m = monos[p->t[0].first];
      if (p->t.size() == 1 && p->t[0].second == 1 && m.size() == 1 && m[0].second == 1 && atoms[m[0].first]->kind == A_APP && atoms[m[0].first]->name == "exp") l = atoms[m[0].first]->args[0];
      else { if (!branchOn(rcmp(O_RLT, rneg(pe)))) { pe = rneg(pe); if (e & 1) neg = !neg; } l = app("log", {pe}); }
    }
    res = radd(res, rmul(rconst(e), l));
  };
  for (auto &f : a->r->den) logFactor(f.first, -f.second);
  std::vector<std::pair<Poly *, int>> nd; Poly *dummy = pconst(1); mpq_class c = denAddPoly(nd, a->r->num, 1, dummy);
  if (!pIsConst(dummy)) { // sqrt atoms were rationalised (num picked up factors): undo by plain treatment
    res = rconst(0); return app("log", {a});
  }
  for (auto &f : nd) logFactor(f.first, f.second);
  c = abs(c); if (c != 1) res = radd(res, g_exact ? app("log", {rconst(c)}) : fromDouble(std::log(q2d(c))));
  return res;
}
static bool hasSqrtMono(Poly *p) { for (auto &x : p->t) for (auto &ae : monos[x.first]) if (atoms[ae.first]->kind == A_SQRT) return true; return false; }
static Expr *rlog(Expr *a) {
  if (a->op == O_RSPEC) return rspec(std::log(b2d(a->val)));
  mpq_class q; if (rIsConst(a, &q)) { if (sgn(q) == 0) return rspec(-INFINITY); if (sgn(q) < 0) return rspec(NAN); return rlogPos(a); }
  if (!branchOn(rcmp(O_RLT, rneg(a)))) { if (branchOn(rcmp(O_REQ, a))) return rspec(-INFINITY); return rspec(NAN); }
  // log of something whose square is simpler (Cholesky diagonals)
  if (hasSqrtMono(a->r->num)) { Expr *s = rmul(a, a); if (!hasSqrtMono(s->r->num)) return rmul(rconst(mpq_class(1, 2)), rlogPos(s)); return app("log", {a}); }
  return rlogPos(a);
}
static Expr *rabs(Expr *a) {
  if (a->op == O_RSPEC) return rspec(std::fabs(b2d(a->val)));
  mpq_class q; if (rIsConst(a, &q)) return rconst(abs(q));
  return branchOn(rcmp(O_RLE, rneg(a))) ? a : rneg(a);
}
static Expr *rfloor(Expr *a) {
  if (a->op == O_RSPEC) return a; mpq_class q;
  if (rIsConst(a, &q)) { mpz_class z; mpz_fdiv_q(z.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); return rconst(mpq_class(z)); }
  return atomExpr(newAtom(A_FLOOR, "floor:" + std::to_string(a->id), "floor", {a}));
}
static Expr *rpowi(Expr *a, long e) {
  if (a->op == O_RSPEC) return rspec(std::pow(b2d(a->val), (double)e));
  bool neg = e < 0; if (neg) e = -e; Expr *r = rconst(1); while (e > 0) { if (e & 1) r = rmul(r, a); if (e > 1) a = rmul(a, a); e >>= 1; }
  if (neg) { if (branchOn(rcmp(O_REQ, r))) return rspec(INFINITY); return rinv(r); } return r;
}
static Expr *rdiv(Expr *a, Expr *b) {
  if (b->op == O_RSPEC) { double y = b2d(b->val); if (a->op == O_RSPEC) return rspec(b2d(a->val) / y); if (std::isnan(y)) return rspec(NAN); return rconst(0); }
  if (a->op == O_RSPEC) { int s = decideSign(b, true); return rspec(s == 0 ? b2d(a->val) / 0.0 : b2d(a->val) * s); }
  mpq_class q;
  if (rIsConst(b, &q)) { if (sgn(q) == 0) { int s = decideSign(a, true); return rspec(s == 0 ? NAN : s * INFINITY); } Rat r = *a->r; r.num = pscale(r.num, 1 / q); return mkRat(r); }
  if (branchOn(rcmp(O_REQ, b))) { int s = decideSign(a, true); return rspec(s == 0 ? NAN : s * INFINITY); }
  if (a->r->num->t.empty()) return a;
  return rmul(a, rinv(b));
}

// ------------------------------------------------------------------ sign facts
// per primitive polynomial: bit0 may be <0, bit1 may be ==0, bit2 may be >0
static std::unordered_map<Poly *, int> signTab;
struct Bound { bool hasLo = false, hasHi = false; mpq_class lo, hi; };
static std::unordered_map<int, Bound> bounds;
static int atomSign(int i) {
  Atom *a = atoms[i]; int s = 7; if (a->known == 1) s = 4; else if (a->known == 2) s = 6;
  auto it = signTab.find(patom(i)); if (it != signTab.end()) s &= it->second;
  auto b = bounds.find(i); if (b != bounds.end()) { if (b->second.hasLo) { if (sgn(b->second.lo) > 0) s &= 4; else if (sgn(b->second.lo) == 0) s &= 6; } if (b->second.hasHi) { if (sgn(b->second.hi) < 0) s &= 1; else if (sgn(b->second.hi) == 0) s &= 3; } }
  return s;
}
static int mulSign(int a, int b) { int r = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if ((a >> i & 1) && (b >> j & 1)) { int s = (i - 1) * (j - 1); r |= 1 << (s + 1); } return r; }
static int addSign(int a, int b) { if (a == 2) return b; if (b == 2) return a; int r = 0; if ((a | b) & 1) r |= 1; if ((a | b) & 4) r |= 4; if (((a & 1) && (b & 4)) || ((a & 4) && (b & 1)) || ((a & 2) && (b & 2))) r |= 2; return r; }
static int polySign(Poly *p) {
  if (p->t.empty()) return 2;
  mpq_class lc = p->t[0].second; Poly *m = pscale(p, 1 / lc); int base = 7; auto it = signTab.find(m); if (it != signTab.end()) base = it->second;
  int acc = 2;
  for (auto &x : m->t) {
    int s = sgn(x.second) > 0 ? 4 : 1;
    for (auto &ae : monos[x.first]) { int as = atomSign(ae.first); if (ae.second % 2 == 0) as = (as & 2) | ((as & 5) ? 4 : 0); s = mulSign(s, as); }
    acc = addSign(acc, s); if (acc == 7) break;
  }
  base &= acc;
  if (base == 7 && m->t.size() > 1) { // interval evaluation with variable bounds
    bool lok = true, hok = true; mpq_class lo = 0, hi = 0;
    for (auto &x : m->t) {
      auto &mm = monos[x.first]; mpq_class l = 1, h = 1; bool ok = true;
      for (auto &ae : mm) { auto b = bounds.find(ae.first); if (b == bounds.end() || !b->second.hasLo || !b->second.hasHi || ae.second > 4) { ok = false; break; }
        for (int k = 0; k < ae.second; k++) { mpq_class c[4] = {l * b->second.lo, l * b->second.hi, h * b->second.lo, h * b->second.hi}; l = *std::min_element(c, c + 4); h = *std::max_element(c, c + 4); } 
        if (ae.second % 2 == 0 && sgn(l) < 0) { l = std::min(l, mpq_class(0)); } }
      if (!ok) { lok = hok = false; break; }
      if (sgn(x.second) > 0) { lo += x.second * l; hi += x.second * h; } else { lo += x.second * h; hi += x.second * l; }
    }
    if (lok && sgn(lo) > 0) base &= 4; if (lok && sgn(lo) == 0) base &= 6; if (hok && sgn(hi) < 0) base &= 1; if (hok && sgn(hi) == 0) base &= 3;
  }
  if (sgn(lc) < 0) base = (base & 2) | ((base & 1) ? 4 : 0) | ((base & 4) ? 1 : 0);
  return base;
}
static Expr *rcmp(int op, Expr *e) {
  if (e->op == O_RSPEC) { double d = b2d(e->val); return bvc(op == O_RLT ? d < 0 : op == O_RLE ? d <= 0 : d == 0, 1); }
  Poly *n = e->r->num; bool flip = false;
  if (op != O_REQ) for (auto &f : e->r->den) if (f.second & 1) { int s = polySign(f.first); if (s == 4) continue; if (s == 1) { flip = !flip; continue; } if ((s & 5) == 4) continue; if ((s & 5) == 1) { flip = !flip; continue; } n = pmul(n, f.first); }
  if (flip) n = pscale(n, -1);
  mpq_class q; if (pIsConst(n, &q)) return bvc(op == O_RLT ? sgn(q) < 0 : op == O_RLE ? sgn(q) <= 0 : sgn(q) == 0, 1);
  int s = polySign(n);
  if (op == O_RLT) { if (!(s & 1)) return F_(); if (s == 1) return T(); }
  if (op == O_RLE) { if (!(s & 4)) return T(); if (s == 4) return F_(); }
  if (op == O_REQ) { if (!(s & 2)) return F_(); if (s == 2) return T(); }
  // canonical: monic up to sign
  mpq_class lc = n->t[0].second; n = pscale(n, 1 / abs(lc)); if (op == O_REQ && sgn(lc) < 0) n = pscale(n, -1);
  if (op == O_REQ && n->t.size() == 1) { // product zero iff one factor zero: single power -> linear
    auto &m = monos[n->t[0].first]; if (m.size() == 1 && m[0].second > 1) n = patom(m[0].first);
  }
  bool neg = false;
  if (op != O_REQ && sgn(n->t[0].second) < 0) { // -p < 0  <=>  not (p <= 0)
    n = pscale(n, -1); op = op == O_RLT ? O_RLE : O_RLT; neg = true;
  }
  Rat r{n, {}}; Expr *c = mk(BV, op, 1, mkRat(r)); return neg ? bnot(c) : c;
}
static void recordFact(Expr *c, bool val) {
  while (c->op == 30 /*Xor*/ && isC(c->b) && c->bits == 1) { if (c->b->val) val = !val; c = c->a; }
  if (c->bits == 1 && c->op == 28 && val) { recordFact(c->a, true); recordFact(c->b, true); return; }
  if (c->bits == 1 && c->op == 29 && !val) { recordFact(c->a, false); recordFact(c->b, false); return; }
  if (c->op != O_RLT && c->op != O_RLE && c->op != O_REQ) return;
  Poly *p = c->a->r->num; int m = c->op == O_RLT ? 1 : c->op == O_RLE ? 3 : 2; if (!val) m = 7 & ~m;
  mpq_class lc = p->t[0].second; if (sgn(lc) < 0) m = (m & 2) | ((m & 1) ? 4 : 0) | ((m & 4) ? 1 : 0);
  Poly *k = pscale(p, 1 / lc); auto it = signTab.find(k); if (it == signTab.end()) signTab[k] = m; else it->second &= m;
  if (k->t.size() <= 2 && monos[k->t[0].first].size() == 1 && monos[k->t[0].first][0].second == 1 && (k->t.size() == 1 || k->t[1].first == 0)) {
    int at = monos[k->t[0].first][0].first; mpq_class v = k->t.size() == 2 ? -k->t[1].second : mpq_class(0); auto &b = bounds[at];
    if (!(m & 1)) { if (!b.hasLo || b.lo < v) { b.hasLo = true; b.lo = v; } }
    if (!(m & 4)) { if (!b.hasHi || b.hi > v) { b.hasHi = true; b.hi = v; } }
  }
}

// ------------------------------------------------------------------ BV simplification
enum { ADD = 13, SUB = 15, MUL = 17, UDIV = 19, SDIV = 20, UREM = 22, SREM = 23, SHL = 25, LSHR = 26, ASHR = 27, AND = 28, OR = 29, XOR = 30 };
enum { FADD = 14, FSUB = 16, FMUL = 18, FDIV = 21, FREM = 24 };
static u64 rotl(u64 v, unsigned n, unsigned b) { n %= b; if (!n) return v; return ((v << n) | (v >> (b - n))) & mask(b); }
static bool evalBin(int op, unsigned bits, u64 a, u64 b, u64 &r) {
  u64 m = mask(bits); a &= m; b &= m;
  switch (op) {
  case ADD: r = a + b; break; case SUB: r = a - b; break; case MUL: r = a * b; break;
  case UDIV: if (!b) return false; r = a / b; break; case UREM: if (!b) return false; r = a % b; break;
  case SDIV: if (!b) return false; { i64 x = sx(a, bits), y = sx(b, bits); if (y == -1) r = -(u64)x; else r = x / y; } break;
  case SREM: if (!b) return false; { i64 x = sx(a, bits), y = sx(b, bits); if (y == -1) r = 0; else r = x % y; } break;
  case SHL: r = b >= bits ? 0 : a << b; break; case LSHR: r = b >= bits ? 0 : a >> b; break;
  case ASHR: r = sx(a, bits) >> (b >= bits ? bits - 1 : b); break;
  case AND: r = a & b; break; case OR: r = a | b; break; case XOR: r = a ^ b; break;
  case 101: r = sx(a, bits) > sx(b, bits) ? a : b; break; case 102: r = sx(a, bits) < sx(b, bits) ? a : b; break;
  case 103: r = std::max(a, b); break; case 104: r = std::min(a, b); break;
  case 110: r = sx(a, bits) < 0 ? -a : a; break; case 111: r = __builtin_popcountll(a); break;
  case 112: r = a ? __builtin_clzll(a) - (64 - bits) : bits; break; case 113: r = a ? __builtin_ctzll(a) : bits; break;
  case 114: r = __builtin_bswap64(a) >> (64 - bits); break;
  case 120: r = a > b ? a - b : 0; break; case 121: { u64 s = (a + b) & m; r = s < a ? m : s; } break;
  case 122: r = rotl(a, b, bits); break; case 123: r = rotl(a, bits - b % bits, bits); break;
  default: return false;
  }
  r &= m; return true;
}
static Expr *mkite(Expr *c, Expr *a, Expr *b) {
  if (isC(c)) return c->val ? a : b; if (a == b) return a;
  if (a->bits == 1 && isC(a) && isC(b)) return a->val ? c : bnot(c);
  return mk(BV, O_ITE, a->bits, c, a, b);
}
static Expr *mkcmp(int pred, Expr *a, Expr *b);
static Expr *mkbin(int op, unsigned bits, Expr *a, Expr *b) {
  if (isC(a) && isC(b)) { u64 r; if (evalBin(op, bits, a->val, b->val, r)) return bvc(r, bits); }
  bool comm = op == ADD || op == MUL || op == AND || op == OR || op == XOR;
  if (comm && isC(a)) std::swap(a, b);
  if (isC(b)) {
    u64 v = b->val;
    if (v == 0) { if (op == ADD || op == SUB || op == OR || op == XOR || op == SHL || op == LSHR || op == ASHR) return a; if (op == AND || op == MUL) return b; }
    if (v == 1 && (op == MUL || op == UDIV || op == SDIV)) return a;
    if (v == mask(bits)) { if (op == AND) return a; if (op == OR) return b; }
    if (op == SUB) return mkbin(ADD, bits, a, bvc(-v, bits));
    if (op == ADD && a->op == ADD && isC(a->b)) return mkbin(ADD, bits, a->a, bvc(a->b->val + v, bits));
    if (op == MUL && a->op == MUL && isC(a->b)) return mkbin(MUL, bits, a->a, bvc(a->b->val * v, bits));
    if (op == XOR && a->op == XOR && isC(a->b)) return mkbin(XOR, bits, a->a, bvc(a->b->val ^ v, bits));
    if (op == UREM && v == 1) return bvc(0, bits);
    if (a->op == O_ITE && isC(a->b) && isC(a->c)) return mkite(a->a, mkbin(op, bits, a->b, b), mkbin(op, bits, a->c, b));
  }
  if (a == b) { if (op == SUB || op == XOR) return bvc(0, bits); if (op == AND || op == OR || (op >= 101 && op <= 104)) return a; }
  if (op == SUB && a->op == ADD) { if (a->a == b) return a->b; if (a->b == b) return a->a; }
  if (op == SUB && a->op == ADD && b->op == ADD && a->a == b->a) return mkbin(SUB, bits, a->b, b->b);
  if (comm && a->id > b->id && !isC(b)) std::swap(a, b);
  if (bits == 1 && op == ADD) op = XOR; 
  return mk(BV, op, bits, a, b);
}
static Expr *bnot(Expr *a) { return mkbin(XOR, 1, a, T()); }
static Expr *band(Expr *a, Expr *b) { return mkbin(AND, 1, a, b); }
static Expr *bor(Expr *a, Expr *b) { return mkbin(OR, 1, a, b); }
static Expr *mkext(Expr *a, unsigned lo, unsigned bits) {
  if (lo == 0 && bits == a->bits) return a; if (isC(a)) return bvc(a->val >> lo, bits);
  if (a->op == O_ZEXT || a->op == O_SEXT) { if (lo + bits <= a->a->bits) return mkext(a->a, lo, bits); if (a->op == O_ZEXT && lo >= a->a->bits) return bvc(0, bits); if (lo == 0 && bits > a->a->bits) return mk(BV, a->op, bits, a->a); }
  if (a->op == O_EXTRACT) return mkext(a->a, lo + a->val, bits);
  if (a->op == O_CONCAT) { if (lo + bits <= a->b->bits) return mkext(a->b, lo, bits); if (lo >= a->b->bits) return mkext(a->a, lo - a->b->bits, bits); }
  if (a->op == O_ITE) return mkite(a->a, mkext(a->b, lo, bits), mkext(a->c, lo, bits));
  return mk(BV, O_EXTRACT, bits, a, 0, 0, lo);
}
static Expr *mkconcat(Expr *hi, Expr *lo) {
  if (isC(hi) && isC(lo)) return bvc((hi->val << lo->bits) | lo->val, hi->bits + lo->bits);
  if (isC(hi) && hi->val == 0) { unsigned b = hi->bits + lo->bits; return lo->op == O_ZEXT ? mk(BV, O_ZEXT, b, lo->a) : mk(BV, O_ZEXT, b, lo); }
  if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->a == lo->a && hi->val == lo->val + lo->bits) return mkext(lo->a, lo->val, hi->bits + lo->bits);
  return mk(BV, O_CONCAT, hi->bits + lo->bits, hi, lo);
}
static Expr *mkzext(Expr *a, unsigned bits) { if (a->bits == bits) return a; if (isC(a)) return bvc(a->val, bits); if (a->op == O_ZEXT) return mk(BV, O_ZEXT, bits, a->a); if (a->op == O_ITE && isC(a->b) && isC(a->c)) return mkite(a->a, mkzext(a->b, bits), mkzext(a->c, bits)); return mk(BV, O_ZEXT, bits, a); }
static Expr *mksext(Expr *a, unsigned bits) { if (a->bits == bits) return a; if (isC(a)) return bvc(sx(a->val, a->bits), bits); if (a->op == O_ITE && isC(a->b) && isC(a->c)) return mkite(a->a, mksext(a->b, bits), mksext(a->c, bits)); return mk(BV, O_SEXT, bits, a); }
static bool evalCmp(int p, unsigned b, u64 x, u64 y) {
  i64 s = sx(x, b), t = sx(y, b); x &= mask(b); y &= mask(b);
  switch (p) { case 32: return x == y; case 33: return x != y; case 34: return x > y; case 35: return x >= y; case 36: return x < y; case 37: return x <= y; case 38: return s > t; case 39: return s >= t; case 40: return s < t; default: return s <= t; }
}
static Expr *mkcmp(int pred, Expr *a, Expr *b) {
  unsigned bits = a->bits;
  if (isC(a) && isC(b)) return bvc(evalCmp(pred, bits, a->val, b->val), 1);
  if (a == b) return bvc(evalCmp(pred, bits, 0, 0), 1);
  if (isC(a)) { static const int sw[] = {32, 33, 36, 37, 34, 35, 40, 41, 38, 39}; std::swap(a, b); pred = sw[pred - 32]; }
  if (isC(b)) {
    if (a->op == O_ITE && (isC(a->b) || isC(a->c))) return mkite(a->a, mkcmp(pred, a->b, b), mkcmp(pred, a->c, b));
    if (bits == 1 && (pred == 32 || pred == 33)) return (b->val == (pred == 32)) ? a : bnot(a);
    if (a->op == O_ZEXT && (pred <= 37)) { unsigned ib = a->a->bits; if (b->val <= mask(ib)) return mkcmp(pred, a->a, bvc(b->val, ib)); if (pred == 32 || pred == 34 || pred == 35) return F_(); return T(); }
    if (a->op == O_ZEXT && pred >= 38 && a->a->bits < bits) { if (sx(b->val, bits) < 0) return bvc(pred == 38 || pred == 39, 1); return mkcmp(pred - 4, a, b); }
    if ((pred == 32 || pred == 33) && a->op == ADD && isC(a->b)) return mkcmp(pred, a->a, bvc(b->val - a->b->val, bits));
    if ((pred == 32 || pred == 33) && a->op == O_SEXT && sx(mkext(b, 0, a->a->bits)->val, a->a->bits) == sx(b->val, bits)) return mkcmp(pred, a->a, mkext(b, 0, a->a->bits));
  }
  if (pred == 33) return bnot(mkcmp(32, a, b));
  if (isC(b) && pred == 34) return b->val == mask(bits) ? F_() : bnot(mkcmp(36, a, bvc(b->val + 1, bits)));
  if (isC(b) && pred == 38) return b->val == (mask(bits) >> 1) ? F_() : bnot(mkcmp(40, a, bvc(b->val + 1, bits)));
  if (isC(b) && pred == 37) return b->val == mask(bits) ? T() : mkcmp(36, a, bvc(b->val + 1, bits));
  if (isC(b) && pred == 41) return b->val == (mask(bits) >> 1) ? T() : mkcmp(40, a, bvc(b->val + 1, bits));
  if (pred == 34) return mkcmp(36, b, a); if (pred == 38) return mkcmp(40, b, a);
  if (pred == 35) return bnot(mkcmp(36, a, b)); if (pred == 39) return bnot(mkcmp(40, a, b));
  if (pred == 37) return bnot(mkcmp(36, b, a)); if (pred == 41) return bnot(mkcmp(40, b, a));
  if (pred == 32 && a->id > b->id && !isC(b)) std::swap(a, b);
  return mk(BV, O_CMP, 1, a, b, 0, pred);
}

// ------------------------------------------------------------------ z3
static z3::context *Z; static std::vector<Z3_ast> atomZ;
static void supp(Expr *e, std::set<int> &out);
static z3::expr zx(Expr *e);
static z3::expr zb(Expr *e) { // BV1 as Bool
  z3::context &c = *Z;
  switch (e->op) {
  case O_CONST: return c.bool_val(e->val != 0);
  case XOR: if (isC(e->b)) return e->b->val ? !zb(e->a) : zb(e->a); return zb(e->a) != zb(e->b);
  case AND: return zb(e->a) && zb(e->b);
  case OR: return zb(e->a) || zb(e->b);
  case O_ITE: return z3::ite(zb(e->a), zb(e->b), zb(e->c));
  case O_CMP: {
    if (e->a->bits == 1) { if (e->val == 32) return zb(e->a) == zb(e->b); }
    z3::expr x = zx(e->a), y = zx(e->b);
    if (e->val == 32) return x == y; if (e->val == 36) return z3::ult(x, y); if (e->val == 40) return x < y; break; }
  case O_RLT: case O_RLE: case O_REQ: { z3::expr x = zx(e->a); z3::expr z = c.real_val(0); return e->op == O_RLT ? x < z : e->op == O_RLE ? x <= z : x == z; }
  case O_FCMP: { z3::expr x = zx(e->a), y = zx(e->b); Z3_context k = c; z3::expr un = z3::expr(c, Z3_mk_fpa_is_nan(k, x)) || z3::expr(c, Z3_mk_fpa_is_nan(k, y));
    int p = e->val; bool uno = p & 8; z3::expr r = c.bool_val(false);
    auto eq = z3::expr(c, Z3_mk_fpa_eq(k, x, y)), gt = z3::expr(c, Z3_mk_fpa_gt(k, x, y)), lt = z3::expr(c, Z3_mk_fpa_lt(k, x, y));
    if (p & 1) r = r || eq; if (p & 2) r = r || gt; if (p & 4) r = r || lt; if (uno) r = r || un; return r; }
  case O_FCLASS: { z3::expr x = zx(e->a); Z3_context k = c; int m = e->val; z3::expr r = c.bool_val(false); auto E = [&](Z3_ast a) { return z3::expr(c, a); };
    z3::expr ng = E(Z3_mk_fpa_is_negative(k, x)), inf = E(Z3_mk_fpa_is_infinite(k, x)), nr = E(Z3_mk_fpa_is_normal(k, x)), sn = E(Z3_mk_fpa_is_subnormal(k, x)), ze = E(Z3_mk_fpa_is_zero(k, x));
    if (m & 3) r = r || E(Z3_mk_fpa_is_nan(k, x)); if (m & 4) r = r || (inf && ng); if (m & 8) r = r || (nr && ng); if (m & 16) r = r || (sn && ng); if (m & 32) r = r || (ze && ng); if (m & 64) r = r || (ze && !ng); if (m & 128) r = r || (sn && !ng); if (m & 256) r = r || (nr && !ng); if (m & 512) r = r || (inf && !ng); return r; }
  case O_OVF: { z3::expr x = zx(e->a), y = zx(e->b); int op = e->val & 255; bool sg = e->val >> 8; Z3_context k = c; auto E = [&](Z3_ast a) { return z3::expr(c, a); };
    if (op == ADD) return sg ? !(E(Z3_mk_bvadd_no_overflow(k, x, y, true)) && E(Z3_mk_bvadd_no_underflow(k, x, y))) : !E(Z3_mk_bvadd_no_overflow(k, x, y, false));
    if (op == SUB) return sg ? !(E(Z3_mk_bvsub_no_overflow(k, x, y)) && E(Z3_mk_bvsub_no_underflow(k, x, y, true))) : !E(Z3_mk_bvsub_no_underflow(k, x, y, false));
    return sg ? !(E(Z3_mk_bvmul_no_overflow(k, x, y, true)) && E(Z3_mk_bvmul_no_underflow(k, x, y))) : !E(Z3_mk_bvmul_no_overflow(k, x, y, false)); }
  default: break;
  }
  return zx(e) == c.bv_val(1, 1);
}
static z3::expr zatom(int i) {
  while (atomZ.size() <= (size_t)i) atomZ.push_back(nullptr);
  if (atomZ[i]) return z3::expr(*Z, atomZ[i]);
  Atom *a = atoms[i]; std::string nm = a->kind == A_VAR ? a->name : a->name + "!" + std::to_string(i);
  if (a->kind == A_FLOOR) { z3::expr v = Z->int_const(nm.c_str()); z3::expr r = z3::to_real(v); Z3_inc_ref(*Z, r); atomZ[i] = r; return r; }
  z3::expr r = Z->real_const(nm.c_str()); Z3_inc_ref(*Z, r); atomZ[i] = r; return r;
}
static z3::expr zpoly(Poly *p) {
  z3::context &c = *Z; if (p->t.empty()) return c.real_val(0);
  z3::expr_vector v(c);
  for (auto &x : p->t) {
    z3::expr_vector f(c); if (x.second != 1 || x.first == 0) f.push_back(c.real_val(x.second.get_str().c_str()));
    for (auto &ae : monos[x.first]) for (int k = 0; k < ae.second; k++) f.push_back(zatom(ae.first));
    if (f.size() == 1) v.push_back(f[0]); else { std::vector<Z3_ast> as; for (unsigned i = 0; i < f.size(); i++) as.push_back(f[i]); v.push_back(z3::expr(c, Z3_mk_mul(c, as.size(), as.data()))); }
  }
  if (v.size() == 1) return v[0]; return z3::sum(v);
}
static z3::expr zx(Expr *e) {
  z3::context &c = *Z; if (e->z) return z3::expr(c, e->z);
  z3::expr r(c); Z3_context k = c;
  auto rm = [&] { return z3::expr(c, Z3_mk_fpa_rne(k)); };
  if (e->sort == REAL) {
    if (e->op == O_RSPEC) throw Unsupported{"inf/nan in formula"};
    r = zpoly(e->r->num); if (!e->r->den.empty()) r = r / zpoly(denPoly(e->r->den));
  } else if (e->sort == FP) {
    Z3_sort ds = Z3_mk_fpa_sort_double(k);
    switch (e->op) {
    case O_CONST: r = z3::expr(c, Z3_mk_fpa_to_fp_bv(k, c.bv_val((uint64_t)e->val, 64), ds)); break;
    case O_VAR: r = z3::expr(c, Z3_mk_const(k, Z3_mk_string_symbol(k, e->name->c_str()), ds)); break;
    case O_FBIN: { z3::expr x = zx(e->a), y = zx(e->b); Z3_ast q = e->val == FADD ? Z3_mk_fpa_add(k, rm(), x, y) : e->val == FSUB ? Z3_mk_fpa_sub(k, rm(), x, y) : e->val == FMUL ? Z3_mk_fpa_mul(k, rm(), x, y) : Z3_mk_fpa_div(k, rm(), x, y); r = z3::expr(c, q); break; }
    case O_FNEG: r = z3::expr(c, Z3_mk_fpa_neg(k, zx(e->a))); break;
    case O_FABS: r = z3::expr(c, Z3_mk_fpa_abs(k, zx(e->a))); break;
    case O_FSQRT: r = z3::expr(c, Z3_mk_fpa_sqrt(k, rm(), zx(e->a))); break;
    case O_FITE: r = z3::ite(zb(e->a), zx(e->b), zx(e->c)); break;
    case O_FFROMBV: r = z3::expr(c, e->val ? Z3_mk_fpa_to_fp_signed(k, rm(), zx(e->a), ds) : Z3_mk_fpa_to_fp_unsigned(k, rm(), zx(e->a), ds)); break;
    case O_FFROMBITS: r = z3::expr(c, Z3_mk_fpa_to_fp_bv(k, zx(e->a), ds)); break;
    case O_FRTI: { Z3_ast m = e->val == 0 ? Z3_mk_fpa_rtn(k) : e->val == 1 ? Z3_mk_fpa_rtp(k) : e->val == 2 ? Z3_mk_fpa_rtz(k) : e->val == 3 ? Z3_mk_fpa_rna(k) : Z3_mk_fpa_rne(k); r = z3::expr(c, Z3_mk_fpa_round_to_integral(k, m, zx(e->a))); break; }
    default: throw Unsupported{"fp op"};
    }
  } else if (e->bits == 1 && e->op != O_EXTRACT && e->op != O_VAR) {
    r = z3::ite(zb(e), c.bv_val(1, 1), c.bv_val(0, 1));
  } else {
    switch (e->op) {
    case O_CONST: r = c.bv_val((uint64_t)e->val, e->bits); break;
    case O_VAR: r = c.bv_const(e->name->c_str(), e->bits); break;
    case O_ITE: r = z3::ite(zb(e->a), zx(e->b), zx(e->c)); break;
    case O_EXTRACT: r = zx(e->a).extract(e->val + e->bits - 1, e->val); break;
    case O_CONCAT: r = z3::concat(zx(e->a), zx(e->b)); break;
    case O_ZEXT: r = z3::zext(zx(e->a), e->bits - e->a->bits); break;
    case O_SEXT: r = z3::sext(zx(e->a), e->bits - e->a->bits); break;
    case O_FTOBV: r = z3::expr(c, e->val ? Z3_mk_fpa_to_sbv(k, Z3_mk_fpa_rtz(k), zx(e->a), e->bits) : Z3_mk_fpa_to_ubv(k, Z3_mk_fpa_rtz(k), zx(e->a), e->bits)); break;
    case O_FBITS: r = z3::expr(c, Z3_mk_fpa_to_ieee_bv(k, zx(e->a))); break;
    default: {
      z3::expr x = zx(e->a), y = zx(e->b); unsigned b = e->bits;
      switch (e->op) {
      case ADD: r = x + y; break; case SUB: r = x - y; break; case MUL: r = x * y; break; case UDIV: r = z3::udiv(x, y); break; case SDIV: r = x / y; break; case UREM: r = z3::urem(x, y); break; case SREM: r = z3::srem(x, y); break;
      case SHL: r = z3::shl(x, y); break; case LSHR: r = z3::lshr(x, y); break; case ASHR: r = z3::ashr(x, y); break; case AND: r = x & y; break; case OR: r = x | y; break; case XOR: r = x ^ y; break;
      case 101: r = z3::ite(x > y, x, y); break; case 102: r = z3::ite(x < y, x, y); break; case 103: r = z3::ite(z3::ugt(x, y), x, y); break; case 104: r = z3::ite(z3::ult(x, y), x, y); break;
      case 110: r = z3::ite(x < c.bv_val(0, b), -x, x); break;
      case 111: { r = c.bv_val(0, b); for (unsigned i = 0; i < b; i++) r = r + z3::zext(x.extract(i, i), b - 1); break; }
      case 112: { r = c.bv_val(b, b); for (unsigned i = 0; i < b; i++) r = z3::ite(x.extract(i, i) == c.bv_val(1, 1), c.bv_val(b - 1 - i, b), r); break; }
      case 113: { r = c.bv_val(b, b); for (int i = b - 1; i >= 0; i--) r = z3::ite(x.extract(i, i) == c.bv_val(1, 1), c.bv_val(i, b), r); break; }
      case 114: { r = x.extract(7, 0); for (unsigned i = 1; i < b / 8; i++) r = z3::concat(r, x.extract(8 * i + 7, 8 * i)); break; }
      case 120: r = z3::ite(z3::ugt(x, y), x - y, c.bv_val(0, b)); break;
      case 121: r = z3::ite(z3::ult(x + y, x), c.bv_val((uint64_t)mask(b), b), x + y); break;
      case 122: r = z3::expr(c, Z3_mk_ext_rotate_left(k, x, y)); break; case 123: r = z3::expr(c, Z3_mk_ext_rotate_right(k, x, y)); break;
      default: throw Unsupported{"bv op " + std::to_string(e->op)};
      }
    } }
  }
  Z3_inc_ref(c, r); e->z = r; return r;
}
// support: variable / atom ids (atoms >= 0, BV/FP vars as -1-id)
static std::vector<int> &suppOf(Expr *e);
static void suppAtom(int i, std::set<int> &out) {
  if (!out.insert(i).second) return; Atom *a = atoms[i];
  for (auto *x : a->args) for (int y : suppOf(x)) out.insert(y);
  if (a->sq) for (auto &t : a->sq->t) for (auto &ae : monos[t.first]) suppAtom(ae.first, out);
}
static std::vector<int> &suppOf(Expr *e) {
  if (e->supp) return *e->supp; std::set<int> s;
  if (e->sort == REAL && e->r) { for (auto &t : e->r->num->t) for (auto &ae : monos[t.first]) suppAtom(ae.first, s); for (auto &d : e->r->den) for (auto &t : d.first->t) for (auto &ae : monos[t.first]) suppAtom(ae.first, s); }
  else if (e->op == O_VAR) s.insert(-1 - (int)e->id);
  else for (Expr *c : {e->a, e->b, e->c}) if (c) for (int y : suppOf(c)) s.insert(y);
  e->supp = new std::vector<int>(s.begin(), s.end()); return *e->supp;
}
static double numEval(Expr *e, std::unordered_map<int, double> &as, bool &ok);
static std::vector<Expr *> pc;
static int g_fnaxioms = 0;
// axioms for the atoms occurring in a query
static void atomAxioms(const std::set<int> &ids, z3::expr_vector &out) {
  z3::context &c = *Z; std::map<std::string, std::vector<int>> byfn; z3::expr zero = c.real_val(0), one = c.real_val(1);
  for (int i : ids) {
    if (i < 0) continue; Atom *a = atoms[i]; z3::expr v = zatom(i);
    if (a->kind == A_SQRT) { mpq_class q; out.push_back(v * v == zpoly(a->sq)); out.push_back(a->known == 1 ? v > zero : v >= zero);
      if (pIsConst(a->sq, &q)) { double d = std::sqrt(q2d(q)); out.push_back(v > c.real_val(mpq_class(d * (1 - 1e-9)).get_str().c_str())); out.push_back(v < c.real_val(mpq_class(d * (1 + 1e-9)).get_str().c_str())); } }
    if (a->kind == A_FLOOR) { z3::expr x = zx(a->args[0]); out.push_back(v <= x); out.push_back(x < v + one); }
    if (a->kind == A_APP) byfn[a->name].push_back(i);
  }
  for (auto &kv : byfn) {
    const std::string &f = kv.first; bool inc = f == "exp" || f == "log" || f == "erf" || f == "atan" || f == "tanh" || f == "sinh" || f == "cbrt" || f == "log1p" || f == "expm1";
    for (size_t i = 0; i < kv.second.size(); i++) {
      Atom *a = atoms[kv.second[i]]; z3::expr v = zatom(kv.second[i]), x = zx(a->args[0]); mpq_class q;
      if (a->known == 1) out.push_back(v > zero);
      if (f == "exp") { out.push_back((x >= zero) == (v >= one)); out.push_back((x > zero) == (v > one)); out.push_back(v >= one + x); out.push_back(z3::implies(x >= zero, v >= one + x + x * x / c.real_val(2))); }
      if (f == "acos") { out.push_back(v >= zero); out.push_back(v <= c.real_val("31415926535897936/10000000000000000")); out.push_back((x == one) == (v == zero)); }
      if (f == "log") { out.push_back((x >= one) == (v >= zero)); out.push_back((x > one) == (v > zero)); out.push_back(v <= x - one); }
      if (f == "sin" || f == "cos") { out.push_back(v <= one); out.push_back(v >= -one); }
      if (f == "erf" || f == "tanh") { out.push_back(v < one); out.push_back(v > -one); out.push_back((x > zero) == (v > zero)); out.push_back((x < zero) == (v < zero)); }
      if (f == "pow") out.push_back(z3::implies(x > zero, v > zero));
      bool allc = true; std::vector<double> cv; for (auto *y : a->args) { if (rIsConst(y, &q)) cv.push_back(q2d(q)); else allc = false; }
      if (allc) {
        double d = NAN; if (f == "exp") d = std::exp(cv[0]); if (f == "log") d = std::log(cv[0]); if (f == "sin") d = std::sin(cv[0]); if (f == "cos") d = std::cos(cv[0]); if (f == "pow") d = std::pow(cv[0], cv[1]); if (f == "lgamma") d = std::lgamma(cv[0]); if (f == "erf") d = std::erf(cv[0]); if (f == "erfc") d = std::erfc(cv[0]); if (f == "tgamma") d = std::tgamma(cv[0]);
        if (std::isfinite(d)) { double w = std::fabs(d) * 1e-13 + 1e-300; out.push_back(v >= c.real_val(mpq_class(d - w).get_str().c_str())); out.push_back(v <= c.real_val(mpq_class(d + w).get_str().c_str())); }
      }
      for (size_t j = 0; j < i; j++) {
        Atom *b = atoms[kv.second[j]]; z3::expr w = zatom(kv.second[j]);
        if (a->args.size() != b->args.size()) continue;
        if (inc) { z3::expr y = zx(b->args[0]); out.push_back((x < y) == (v < w)); out.push_back((x == y) == (v == w)); if (f == "exp" && kv.second.size() <= 6) { z3::expr d = x - y; out.push_back(v >= w * (one + d)); out.push_back(w >= v * (one - d)); out.push_back(z3::implies(d >= zero, v >= w * (one + d + d * d / c.real_val(2)))); out.push_back(z3::implies(d <= zero, w >= v * (one - d + d * d / c.real_val(2)))); } }
        else if (f == "acos") { z3::expr y = zx(b->args[0]); out.push_back((x < y) == (v > w)); out.push_back((x == y) == (v == w)); }
        else { z3::expr eq = c.bool_val(true); for (size_t k = 0; k < a->args.size(); k++) eq = eq && (zx(a->args[k]) == zx(b->args[k])); out.push_back(z3::implies(eq, v == w)); }
      }
    }
  }
}
typedef std::unordered_map<int, double> Num; // atom id / -1-var id(low bits via bvnum)
static std::unordered_map<int, u64> bvHint; static Num realHint; static bool hintOk = false;
struct QR { int r; std::map<std::string, std::string> vals; Num num; std::unordered_map<int, u64> bv; };
static std::vector<std::pair<std::string, Expr *>> inputs; // declared input variables
static mpq_class znum(z3::expr v, bool &exact) {
  exact = true; z3::context &c = v.ctx();
  if (v.is_algebraic()) { exact = false; std::string s = Z3_get_numeral_decimal_string(c, Z3_algebraic_get_i(c, v) ? (Z3_ast)v : (Z3_ast)v, 30); if (!s.empty() && s.back() == '?') s.pop_back(); bool neg = s[0] == '-'; if (neg) s = s.substr(1); size_t p = s.find('.'); std::string d = "1"; if (p != std::string::npos) { d += std::string(s.size() - p - 1, '0'); s.erase(p, 1); } mpq_class q(mpz_class(s, 10), mpz_class(d)); q.canonicalize(); return neg ? mpq_class(-q) : q; }
  std::string s = Z3_get_numeral_string(c, v); mpq_class q(s); q.canonicalize(); return q;
}
static void collectModel(z3::model &m, QR &q) {
  for (auto &in : inputs) {
    Expr *e = in.second;
    try {
      if (e->sort == BV) { z3::expr v = m.eval(zx(e), true); uint64_t u = 0; Z3_get_numeral_uint64(*Z, v, &u); q.vals[in.first] = "i " + std::to_string(sx(u, e->bits)); q.bv[-1 - (int)e->id] = u; }
      else if (e->sort == REAL) { z3::expr v = m.eval(zx(e), true); bool ex; mpq_class x = znum(v, ex); char b[64]; double d = q2d(x); snprintf(b, 64, "d %a", d); q.vals[in.first] = b; q.num[monos[e->r->num->t[0].first][0].first] = d; }
      else { z3::expr v = m.eval(zx(e), true); z3::expr bv = m.eval(z3::expr(*Z, Z3_mk_fpa_to_ieee_bv(*Z, v)), true); uint64_t u = 0; Z3_get_numeral_uint64(*Z, bv.simplify(), &u); char b[64]; double d = b2d(u); if (std::isnan(d)) snprintf(b, 64, "d nan"); else if (std::isinf(d)) snprintf(b, 64, "d %sinf", d < 0 ? "-" : ""); else snprintf(b, 64, "d %a", d); q.vals[in.first] = b; q.bv[-1 - (int)e->id] = u; }
    } catch (...) {}
  }
}
static int runSolver(z3::solver &s, QR *q, bool wantModel) {
  z3::check_result r = s.check(); if (r == z3::sat && q && wantModel) { z3::model m = s.get_model(); collectModel(m, *q); }
  return r == z3::sat ? 1 : r == z3::unsat ? 0 : 2;
}
static bool g_anyReal(const std::set<int> &ids) { for (int i : ids) if (i >= 0) return true; return false; }
static bool g_anyBV(const std::set<int> &ids) { for (int i : ids) if (i < 0) return true; return false; }
// satisfiability of pc-slice /\ extra.  0 unsat, 1 sat, 2 unknown
static std::unordered_map<Expr *, char> nlMemo;
static bool nonlinear(Expr *e) { // mentions a polynomial of degree above one
  if (!e || isC(e)) return false; auto it = nlMemo.find(e); if (it != nlMemo.end()) return it->second; bool r = false;
  if (e->sort == REAL) { if (e->op != O_RSPEC) { if (!e->r->den.empty()) r = true; for (auto &t : e->r->num->t) if (monoDeg[t.first] > 1) r = true; for (auto &t : e->r->num->t) for (auto &ae : monos[t.first]) if (atoms[ae.first]->kind == A_SQRT) r = true; } }
  else for (Expr *c : {e->a, e->b, e->c}) if (nonlinear(c)) { r = true; break; }
  nlMemo[e] = r; return r;
}
static bool g_branch = false; static double g_branch_s = 1;
static int check(const std::vector<Expr *> &extra, QR *q, bool fullPc = false, double helperSecs = -1) {
  double t0 = now(); S->queries++;
  std::set<int> ids; for (auto *e : extra) for (int i : suppOf(e)) ids.insert(i);
  std::vector<Expr *> use; std::vector<bool> in(pc.size(), false); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < pc.size(); i++) if (!in[i]) { auto &s = suppOf(pc[i]); bool hit = fullPc; if (!hit) for (int y : s) if (ids.count(y)) { hit = true; break; } if (hit) { in[i] = true; ch = true; for (int y : s) ids.insert(y); } } }
  for (size_t i = 0; i < pc.size(); i++) if (in[i]) use.push_back(pc[i]);
  for (auto *e : extra) use.push_back(e);
  int res = 2;
  try {
    z3::expr_vector ev(*Z); for (auto *e : use) ev.push_back(zb(e)); atomAxioms(ids, ev);
    bool real = g_anyReal(ids), bv = g_anyBV(ids), fp = false; if (bv) for (int i : ids) if (i < 0 && exprs[-1 - i]->sort == FP) fp = true;
    bool hard = false; if (!fp) for (auto *e : use) if (nonlinear(e)) hard = true;
    if (!hard) {
      z3::solver s = (fp || (bv && !real)) ? z3::tactic(*Z, fp ? "qffp" : "qfbv").mk_solver() : z3::solver(*Z, z3::solver::simple());
      z3::params p(*Z); p.set("rlimit", (unsigned)(g_branch ? g_rlimit / 5 : g_rlimit)); s.set(p);
      for (auto e : ev) s.add(e);
      try { res = runSolver(s, q, true); } catch (z3::exception &) { res = 2; }
    }
    if (res == 2 && !(g_branch && g_branch_s <= 0)) { // heavier portfolio in a killable child
      S->helper++; double lim = helperSecs > 0 ? helperSecs : g_branch ? g_branch_s : g_helper_s; lim = std::min(lim, S->deadline - now()); 
      for (int strat = hard ? -1 : 0; strat < 3 && res == 2 && lim > 0.2; strat++) {
        if (strat == 1 && (fp || !real)) continue; if (g_branch && strat >= 0 && (hard || strat)) break;
        int fd[2]; if (pipe(fd)) break; pid_t p = fork();
        if (p == 0) {
          signal(SIGALRM, SIG_DFL); alarm(0); prctl(PR_SET_PDEATHSIG, SIGKILL); rlimit rc{(rlim_t)lim + 2, (rlim_t)lim + 3}; setrlimit(RLIMIT_CPU, &rc); rlimit rl{6ul << 30, 6ul << 30}; setrlimit(RLIMIT_AS, &rl);
          std::string out = "2\n";
          try {
            z3::solver s = strat < 0 ? z3::solver(*Z, z3::solver::simple()) : strat == 0 ? (real && !bv ? z3::tactic(*Z, "qfnra-nlsat").mk_solver() : z3::solver(*Z)) : strat == 1 ? z3::tactic(*Z, "qfnra").mk_solver() : z3::solver(*Z, z3::solver::simple());
            if (strat == 2) { z3::params pp(*Z); pp.set("arith.solver", 2u); pp.set("random_seed", 7u); s.set(pp); }
            for (auto e : ev) s.add(e); QR qq; int r = runSolver(s, &qq, true); out = std::to_string(r) + "\n"; for (auto &kv : qq.vals) out += kv.first + " " + kv.second + "\n";
          } catch (...) {}
          out += "END\n"; size_t o = 0; while (o < out.size()) { ssize_t w = write(fd[1], out.data() + o, out.size() - o); if (w <= 0) break; o += w; } _exit(0);
        }
        close(fd[1]); std::string buf; double end = now() + (strat < 0 && !g_branch ? std::min(lim, 4.0) : lim); bool done = false;
        while (!done) { double left = end - now(); if (left <= 0) break; pollfd pf{fd[0], POLLIN, 0}; int pr = poll(&pf, 1, (int)(left * 1000) + 1); if (pr < 0) continue; if (pr == 0) break; char tmp[4096]; ssize_t n = read(fd[0], tmp, 4096); if (n <= 0) done = true; else buf.append(tmp, n); if (buf.find("END\n") != std::string::npos) done = true; }
        kill(p, SIGKILL); close(fd[0]); int st; waitpid(p, &st, 0);
        if (buf.find("END\n") != std::string::npos) {
          res = buf[0] - '0';
          if (res == 1 && q) { size_t pos = buf.find('\n') + 1; while (pos < buf.size()) { size_t e = buf.find('\n', pos); if (e == std::string::npos) break; std::string ln = buf.substr(pos, e - pos); pos = e + 1; size_t sp = ln.find(' '); if (sp == std::string::npos) continue; std::string nm = ln.substr(0, sp), v = ln.substr(sp + 1); q->vals[nm] = v;
              for (auto &inp : inputs) if (inp.first == nm) { if (v[0] == 'd' && inp.second->sort == REAL) q->num[monos[inp.second->r->num->t[0].first][0].first] = strtod(v.c_str() + 2, nullptr); else if (v[0] == 'i') q->bv[-1 - (int)inp.second->id] = strtoll(v.c_str() + 2, nullptr, 10); else q->bv[-1 - (int)inp.second->id] = d2b(strtod(v.c_str() + 2, nullptr)); } } }
        }
      }
    }
  } catch (z3::exception &e) { if (g_verbose) fprintf(stderr, "[symx] z3: %s\n", e.msg()); res = 2; }
  double dt = now() - t0; S->solver_us += (long)(dt * 1e6); if (dt > 1) { S->slow++; if (g_verbose) fprintf(stderr, "[symx] slow query %.2fs res %d (%zu constraints)\n", dt, res, use.size()); }
  if (res == 0) S->unsat++; else if (res == 1) S->sat++; else S->unknown++;
  if (q) q->r = res; return res;
}

// ------------------------------------------------------------------ numeric evaluation (hints, candidates)
static bool numBV(Expr *e, u64 &v);
static bool numReal(Expr *e, double &v, int depth = 0);
static bool numAtom(int i, double &v) {
  auto it = realHint.find(i); if (it != realHint.end()) { v = it->second; return true; }
  Atom *a = atoms[i]; double x[3]; if (a->kind == A_VAR) return false;
  if (a->kind == A_SQRT) { Rat r{a->sq, {}}; if (!numReal(mkRat(r), x[0])) return false; v = std::sqrt(x[0]); return std::isfinite(v); }
  for (size_t k = 0; k < a->args.size() && k < 3; k++) if (!numReal(a->args[k], x[k])) return false;
  const std::string &f = a->name;
  if (a->kind == A_FLOOR) v = std::floor(x[0]); else if (f == "exp") v = std::exp(x[0]); else if (f == "log") v = std::log(x[0]); else if (f == "sin") v = std::sin(x[0]); else if (f == "cos") v = std::cos(x[0]); else if (f == "pow") v = std::pow(x[0], x[1]); else if (f == "lgamma") v = std::lgamma(x[0]); else if (f == "tgamma") v = std::tgamma(x[0]); else if (f == "erf") v = std::erf(x[0]); else if (f == "erfc") v = std::erfc(x[0]); else if (f == "tanh") v = std::tanh(x[0]); else if (f == "atan") v = std::atan(x[0]); else if (f == "acos") v = std::acos(x[0]); else if (f == "asin") v = std::asin(x[0]); else if (f == "atan2") v = std::atan2(x[0], x[1]); else if (f == "tan") v = std::tan(x[0]); else return false;
  return std::isfinite(v);
}
static bool numPoly(Poly *p, double &v) { v = 0; for (auto &t : p->t) { double m = t.second.get_d(); for (auto &ae : monos[t.first]) { double x; if (!numAtom(ae.first, x)) return false; for (int k = 0; k < ae.second; k++) m *= x; } v += m; } return std::isfinite(v); }
static bool numReal(Expr *e, double &v, int) {
  if (e->op == O_RSPEC) { v = b2d(e->val); return true; } if (e->sort != REAL) return false;
  if (!numPoly(e->r->num, v)) return false; for (auto &d : e->r->den) { double x; if (!numPoly(d.first, x) || x == 0) return false; for (int k = 0; k < d.second; k++) v /= x; } return std::isfinite(v);
}
static bool numFP(Expr *e, double &v) {
  double x, y; u64 u;
  switch (e->op) {
  case O_CONST: v = b2d(e->val); return true;
  case O_VAR: { auto it = bvHint.find(-1 - (int)e->id); if (it == bvHint.end()) return false; v = b2d(it->second); return true; }
  case O_FBIN: if (!numFP(e->a, x) || !numFP(e->b, y)) return false; v = e->val == FADD ? x + y : e->val == FSUB ? x - y : e->val == FMUL ? x * y : x / y; return true;
  case O_FNEG: if (!numFP(e->a, x)) return false; v = -x; return true;
  case O_FABS: if (!numFP(e->a, x)) return false; v = std::fabs(x); return true;
  case O_FSQRT: if (!numFP(e->a, x)) return false; v = std::sqrt(x); return true;
  case O_FITE: if (!numBV(e->a, u)) return false; return numFP(u ? e->b : e->c, v);
  case O_FFROMBV: if (!numBV(e->a, u)) return false; v = e->val ? (double)sx(u, e->a->bits) : (double)u; return true;
  default: return false;
  }
}
static bool numBV(Expr *e, u64 &v) {
  u64 x, y; double d;
  switch (e->op) {
  case O_CONST: v = e->val; return true;
  case O_VAR: { auto it = bvHint.find(-1 - (int)e->id); if (it == bvHint.end()) return false; v = it->second & mask(e->bits); return true; }
  case O_ITE: if (!numBV(e->a, x)) return false; return numBV(x ? e->b : e->c, v);
  case O_CMP: if (!numBV(e->a, x) || !numBV(e->b, y)) return false; v = evalCmp(e->val, e->a->bits, x, y); return true;
  case O_EXTRACT: if (!numBV(e->a, x)) return false; v = (x >> e->val) & mask(e->bits); return true;
  case O_CONCAT: if (!numBV(e->a, x) || !numBV(e->b, y)) return false; v = (x << e->b->bits) | y; return true;
  case O_ZEXT: return numBV(e->a, v);
  case O_SEXT: if (!numBV(e->a, x)) return false; v = sx(x, e->a->bits) & mask(e->bits); return true;
  case O_RLT: case O_RLE: case O_REQ: if (!numReal(e->a, d)) return false; if (std::fabs(d) < 1e-7) return false; v = e->op == O_REQ ? 0 : d < 0; return true;
  case O_FCMP: { double a, b; if (!numFP(e->a, a) || !numFP(e->b, b)) return false; int p = e->val; v = ((p & 1) && a == b) || ((p & 2) && a > b) || ((p & 4) && a < b) || ((p & 8) && (std::isnan(a) || std::isnan(b))); return true; }
  case O_OVF: case O_FCLASS: case O_FTOBV: case O_FBITS: return false;
  default: if (e->op > 130) return false; if (!numBV(e->a, x) || !numBV(e->b, y)) return false; return evalBin(e->op, e->bits, x, y, v);
  }
}
static void setHint(const QR &q) { for (auto &kv : q.num) realHint[kv.first] = kv.second; for (auto &kv : q.bv) bvHint[kv.first] = kv.second; }
static bool hintSatisfiesPc() { for (auto *e : pc) { u64 v; if (!numBV(e, v) || !v) return false; } return true; }

static uint64_t rngs = 88172645463325252ull; static double rnd() { rngs ^= rngs << 13; rngs ^= rngs >> 7; rngs ^= rngs << 17; return (rngs >> 11) * (1.0 / 9007199254740992.0); }

// ------------------------------------------------------------------ interval branch and bound (refutes branch sides over boxes)
struct INode { int kind; int op; int a, b, c; std::vector<std::pair<double, std::vector<std::pair<int, int>>>> t; }; // kind 0 poly, 1 not, 2 and, 3 or, 4 ite, 5 unknown
struct Icp {
  std::vector<INode> nodes; std::map<int, int> vi; std::unordered_map<Expr *, int> memo; bool addVars = true; bool bad = false;
  int unknown() { nodes.push_back({5, 0, 0, 0, 0, {}}); return nodes.size() - 1; }
  int mkn(int k, int a, int b = 0, int c = 0) { nodes.push_back({k, 0, a, b, c, {}}); return nodes.size() - 1; }
  int comp(Expr *e) { auto it = memo.find(e); if (it != memo.end()) return it->second; int r = comp_(e); memo[e] = r; return r; }
  int comp_(Expr *e) {
    if (e->sort != BV || e->bits != 1) { bad = true; return unknown(); }
    if (e->op == 30 && isC(e->b)) { int x = comp(e->a); return e->b->val ? mkn(1, x) : x; }
    if (e->op == 28) { int x = comp(e->a), y = comp(e->b); return mkn(2, x, y); }
    if (e->op == 29) { int x = comp(e->a), y = comp(e->b); return mkn(3, x, y); }
    if (e->op == O_ITE) { int x = comp(e->a), y = isC(e->b) ? -1 - (int)e->b->val : comp(e->b), z = isC(e->c) ? -1 - (int)e->c->val : comp(e->c); return mkn(4, x, y, z); }
    if (e->op == O_RLT || e->op == O_RLE || e->op == O_REQ) {
      if (e->a->op == O_RSPEC || e->a->sort != REAL || !e->a->r->den.empty() || e->a->r->num->t.size() > 400) { bad = true; return unknown(); }
      INode k{0, (int)e->op, 0, 0, 0, {}};
      for (auto &t : e->a->r->num->t) { k.t.push_back({t.second.get_d(), {}}); for (auto &ae : monos[t.first]) { auto it = vi.find(ae.first); if (it == vi.end()) { auto b = bounds.find(ae.first); if (!addVars || b == bounds.end() || !b->second.hasLo || !b->second.hasHi) { bad = true; return unknown(); } int n = vi.size(); it = vi.emplace(ae.first, n).first; } k.t.back().second.push_back({it->second, ae.second}); } }
      nodes.push_back(k); return nodes.size() - 1;
    }
    bad = true; return unknown();
  }
  int eval(int i, const double *lo, const double *hi) const { // 0 false, 1 true, 2 either
    if (i < 0) return -1 - i; const INode &k = nodes[i]; int x, y;
    switch (k.kind) {
    case 1: x = eval(k.a, lo, hi); return x == 2 ? 2 : !x;
    case 2: x = eval(k.a, lo, hi); if (x == 0) return 0; y = eval(k.b, lo, hi); return y == 0 ? 0 : (x == 1 && y == 1) ? 1 : 2;
    case 3: x = eval(k.a, lo, hi); if (x == 1) return 1; y = eval(k.b, lo, hi); return y == 1 ? 1 : (x == 0 && y == 0) ? 0 : 2;
    case 4: x = eval(k.a, lo, hi); if (x == 1) return eval(k.b, lo, hi); if (x == 0) return eval(k.c, lo, hi); x = eval(k.b, lo, hi); y = eval(k.c, lo, hi); return x == y ? x : 2;
    case 5: return 2;
    }
    double L = 0, H = 0, mag = 0;
    for (auto &t : k.t) {
      double l = t.first, h = t.first;
      for (auto &ae : t.second) {
        double a = lo[ae.first], b = hi[ae.first], pl, ph; int e = ae.second;
        if (e == 1) { pl = a; ph = b; } else { pl = std::pow(a, e); ph = std::pow(b, e); if (!(e & 1)) { double mx = std::max(pl, ph), mn = (a <= 0 && b >= 0) ? 0 : std::min(pl, ph); pl = mn; ph = mx; } }
        double c1 = l * pl, c2 = l * ph, c3 = h * pl, c4 = h * ph; l = std::min(std::min(c1, c2), std::min(c3, c4)); h = std::max(std::max(c1, c2), std::max(c3, c4));
      }
      L += l; H += h; mag += std::max(std::fabs(l), std::fabs(h));
    }
    double m = mag * 1e-11 + 1e-300; L -= m; H += m;
    if (k.op == O_RLT) return H < 0 ? 1 : L >= 0 ? 0 : 2; if (k.op == O_RLE) return H <= 0 ? 1 : L > 0 ? 0 : 2; return (L > 0 || H < 0) ? 0 : 2;
  }
};
static bool icpRefute(const std::vector<Expr *> &extra, int maxBoxes, double secs = 0.5) {
  Icp K; std::vector<int> roots; const size_t MAXV = 6; double tend = now() + secs;
  for (auto *e : extra) { if (isC(e)) { if (!e->val) return true; continue; } roots.push_back(K.comp(e)); } if (K.vi.size() > MAXV || K.vi.empty()) return false;
  for (int round = 0; round < 3; round++) for (auto *p : pc) { // grow the variable set by connected constraints while it stays small
    bool hit = false, all = true; size_t nn = K.vi.size(); for (int y : suppOf(p)) if (y >= 0 && atoms[y]->kind == A_VAR) { if (K.vi.count(y)) hit = true; else { all = false; nn++; } }
    if (!hit || all || nn > MAXV) continue; K.comp(p);
  }
  K.addVars = false; size_t n = K.vi.size(); for (auto *p : pc) { bool hit = false; for (int y : suppOf(p)) if (K.vi.count(y)) { hit = true; break; } if (hit) roots.push_back(K.comp(p)); }
  std::vector<double> l0(n), h0(n), w(n); for (auto &kv : K.vi) { auto &b = bounds[kv.first]; l0[kv.second] = std::nextafter(q2d(b.lo), -1e300); h0[kv.second] = std::nextafter(q2d(b.hi), 1e300); }
  for (size_t i = 0; i < n; i++) w[i] = h0[i] - l0[i];
  std::vector<std::pair<std::vector<double>, std::vector<double>>> st{{l0, h0}}; int boxes = 0;
  while (!st.empty()) {
    auto b = st.back(); st.pop_back(); if (++boxes > maxBoxes || ((boxes & 63) == 0 && now() > tend)) return false;
    bool out = false; for (size_t r = 0; r < roots.size(); r++) if (K.eval(roots[r], b.first.data(), b.second.data()) == 0) { out = true; if (r) std::swap(roots[r], roots[0]); break; }
    if (out) continue;
    size_t v = 0; double best = -1; for (size_t i = 0; i < n; i++) if (w[i] > 0) { double r = (b.second[i] - b.first[i]) / w[i]; if (r > best) { best = r; v = i; } }
    if (best < 1e-4) return false;
    double mid = 0.5 * (b.first[v] + b.second[v]); auto c = b; b.second[v] = mid; c.first[v] = mid; st.push_back(b); st.push_back(c);
  }
  return true;
}
static bool sampleSat(Expr *c, QR &q) { // concrete point on the path that takes the branch
  Num sr = realHint; auto sb = bvHint; bool found = false; double t0 = now();
  for (int k = 0; k < 60 && !found && now() - t0 < 0.15; k++) {
    double sc = k % 3 == 0 ? 1 : k % 3 == 1 ? 0.2 : 0.02;
    for (auto &in : inputs) {
      Expr *e = in.second; if (e->sort != REAL) continue; int a = monos[e->r->num->t[0].first][0].first; double lo = -3, hi = 3; auto b = bounds.find(a); if (b != bounds.end()) { if (b->second.hasLo) { lo = q2d(b->second.lo); hi = lo + 4; } if (b->second.hasHi) { hi = q2d(b->second.hi); if (!b->second.hasLo) lo = hi - 4; } }
      auto it = sr.find(a); double base = it == sr.end() ? 0.5 * (lo + hi) : it->second; double x = sc == 1 ? lo + (hi - lo) * rnd() : base + sc * (hi - lo) * (rnd() - 0.5) * 2; if (k > 30 && rnd() < 0.6) x = base; x = std::min(hi, std::max(lo, x)); realHint[a] = std::ldexp(std::floor(std::ldexp(x, 12)), -12);
    }
    u64 v; if (!numBV(c, v) || !v) continue; if (!hintSatisfiesPc()) continue; found = true;
  }
  if (found) { q.r = 1; for (auto &kv : realHint) q.num[kv.first] = kv.second; q.bv.insert(bvHint.begin(), bvHint.end()); }
  realHint = sr; bvHint = sb; return found;
}
// ------------------------------------------------------------------ path exploration
static void arm() { double left = S->deadline - now(); if (left < 0.05) left = 0.05; itimerval it{}; it.it_value.tv_sec = (long)left; it.it_value.tv_usec = (long)((left - (long)left) * 1e6); setitimer(ITIMER_REAL, &it, nullptr); }
static int sxfork() { // 0: child, 1: parent
  if (now() > S->deadline) end_inconclusive("deadline");
  S->h[g_h].forks++;
  bool par = false; int t = S->tokens; while (t > 0 && !S->tokens.compare_exchange_weak(t, t - 1)) {} par = t > 0;
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p < 0) { if (par) S->tokens++; end_inconclusive("fork failed"); }
  if (p == 0) { g_has_token = par; arm(); return 0; }
  if (!par) { int st; waitpid(p, &st, 0); } 
  return 1;
}
static void addPc(Expr *c) {
  if (isC(c)) return;
  if (c->bits == 1 && c->op == AND) { addPc(c->a); addPc(c->b); return; }
  pc.push_back(c); recordFact(c, true); u64 v; if (hintOk && (!numBV(c, v) || !v)) hintOk = false;
}
static bool branchOn(Expr *c) {
  if (isC(c)) return c->val;
  for (auto *p : pc) { if (p == c) return true; if (p == bnot(c)) return false; }
  if (g_concrete) { u64 v = 0; numBV(c, v); return v; }
  Expr *n = bnot(c); u64 hv; bool hk = hintOk && numBV(c, hv);
  int rt = 2, rf = 2; QR qt, qf;
  if (hk) { (hv ? rt : rf) = 1; }
  struct BG { BG() { g_branch = true; } ~BG() { g_branch = false; } };
  bool nl = nonlinear(c);
  if (nl) { // cheap verdicts for nonlinear conditions before asking the solver
    if (rt != 1 && sampleSat(c, qt)) rt = 1;
    if (rf != 1 && sampleSat(n, qf)) rf = 1;
    if (rt != 1 && icpRefute({c}, 5000)) { S->icp++; rt = 0; }
    if (rt != 0 && rf != 1 && icpRefute({n}, 5000)) { S->icp++; rf = 0; }
  }
  if (nl && g_verbose && (rt == 2 || rf == 2)) { Expr *at = c; while (at->op == 30) at = at->a; std::set<int> sv; for (int y : suppOf(c)) sv.insert(y); int deg = 0; size_t nt = 0; if (at->a && at->a->sort == REAL && at->a->op != O_RSPEC) { nt = at->a->r->num->t.size(); for (auto &t : at->a->r->num->t) deg = std::max(deg, monoDeg[t.first]); } fprintf(stderr, "[symx] hard branch op %d rt %d rf %d vars %zu terms %zu degree %d\n", at->op, rt, rf, sv.size(), nt, deg); if (getenv("SYMX_DUMP")) { std::string o; for (auto &t : at->a->r->num->t) { o += " + " + t.second.get_str(); for (auto &ae : monos[t.first]) o += "*" + atoms[ae.first]->name + "^" + std::to_string(ae.second); } fprintf(stderr, "   %s\n", o.c_str()); } }
  if (rt == 2) { BG g; rt = check({c}, &qt); }
  if (rt == 0) { addPc(n); return false; }
  if (rf == 2) { BG g; rf = check({n}, &qf); }
  if (rf == 0) { addPc(c); return true; }
  if (rt == 2 || rf == 2) S->maybe++;
  bool first = true;
  int who = sxfork(); bool side = (who == 0) ? !first : first; // child explores the false side
  QR &q = side ? qt : qf; 
  if (!(hk && (bool)hv == side)) { setHint(q); hintOk = false; }
  addPc(side ? c : n);
  hintOk = hintSatisfiesPc();
  return side;
}
static int decideSign(Expr *e, bool) { if (e->op == O_RSPEC) { double d = b2d(e->val); return d > 0 ? 1 : d < 0 ? -1 : 0; } if (branchOn(rcmp(O_RLT, e))) return -1; if (branchOn(rcmp(O_RLT, rneg(e)))) return 1; return 0; }

static void writeCand(const char *lbl, const char *kind, const std::map<std::string, std::string> &vals, const std::string &msg) {
  LabelStat *L = label(lbl); if (L->cand++ > 12) return; long n = S->cands++; char fn[512]; snprintf(fn, 512, "%s/cand.%05ld", g_out.c_str(), n);
  FILE *f = fopen(fn, "w"); if (!f) return; fprintf(f, "harness %s\nlabel %s\nkind %s\nmsg %s\n", (*g_reg)[g_h].first, lbl, kind, msg.c_str());
  for (auto &kv : vals) fprintf(f, "var %s %s\n", kv.first.c_str(), kv.second.c_str()); fclose(f);
}
static std::vector<Expr *> niceBounds(int b) { std::vector<Expr *> r; for (auto &in : inputs) if (in.second->sort == REAL) { Expr *e = in.second; r.push_back(rcmp(O_RLE, radd(e, rconst(b), -1))); r.push_back(rcmp(O_RLE, radd(rneg(e), rconst(b), -1))); } return r; }
// numeric search for an assignment satisfying pc and bad (only to propose a candidate; replay decides)
static bool sampleCand(Expr *bad, std::map<std::string, std::string> &vals, int tries) {
  Num sr = realHint; auto sb = bvHint; bool found = false; double t0 = now();
  for (int k = 0; k < tries && !found && now() - t0 < 2.0; k++) {
    for (auto &in : inputs) {
      Expr *e = in.second; if (e->sort == REAL) { int a = monos[e->r->num->t[0].first][0].first; double lo = -3, hi = 3; auto b = bounds.find(a); if (b != bounds.end()) { if (b->second.hasLo) { lo = q2d(b->second.lo); hi = lo + 4; } if (b->second.hasHi) { hi = q2d(b->second.hi); if (!b->second.hasLo) lo = hi - 4; } } realHint[a] = k && rnd() < 0.3 ? sr[a] : lo + (hi - lo) * rnd(); }
      else if (e->sort == BV) { if (!sb.count(-1 - (int)e->id)) bvHint[-1 - (int)e->id] = 0; }
    }
    u64 v; if (bad && (!numBV(bad, v) || !v)) continue; if (!hintSatisfiesPc()) continue; found = true;
  }
  if (found) for (auto &in : inputs) { Expr *e = in.second; char b[64]; if (e->sort == REAL) { snprintf(b, 64, "d %a", realHint[monos[e->r->num->t[0].first][0].first]); vals[in.first] = b; } else if (e->sort == BV) { snprintf(b, 64, "i %ld", (long)sx(bvHint[-1 - (int)e->id], e->bits)); vals[in.first] = b; } }
  realHint = sr; bvHint = sb; return found;
}
static void candidates(const char *lbl, const char *kind, Expr *bad, Expr *wide, Expr *wide2, const QR *q0, const std::string &msg) {
  if (label(lbl)->cand > 8) return;
  std::vector<Expr *> nb = niceBounds(16); QR q; bool any = false;
  for (Expr *w : {wide, wide2, bad}) { if (any) break; if (!w && (w != bad || any)) continue; auto ex = nb; if (w) ex.push_back(w); if (check(ex, &q, true, 3) == 1) { writeCand(lbl, kind, q.vals, msg); any = true; } }
  std::map<std::string, std::string> vals;
  if (sampleCand(wide ? wide : bad, vals, 3000) || (wide && sampleCand(bad, vals, 3000))) writeCand(lbl, kind, vals, msg);
  std::vector<Expr *> ex; if (bad) ex.push_back(bad); QR q2; if (!any && check(ex, &q2, true, 5) == 1) writeCand(lbl, kind, q2.vals, msg);
  if (q0 && q0->r == 1 && !any) writeCand(lbl, kind, q0->vals, msg);
}
static void pathFailure(const char *kind, const std::string &msg) {
  S->h[g_h].fails++; if (g_verbose) fprintf(stderr, "[symx] path failure %s: %s\n", kind, msg.c_str());
  std::string l = std::string("no-") + kind; label(l.c_str())->violated++;
  static bool in = false; if (in) end_path(); in = true;
  try { candidates(l.c_str(), kind, nullptr, nullptr, nullptr, nullptr, msg); } catch (Unsupported &) {}
  if (inputs.empty()) writeCand(l.c_str(), kind, {}, msg);
  end_path();
}
static void witness() { // an input that drives this path, for validation against the native build
  if (S->h[g_h].wits++ >= 10) return; if (!hintOk) { QR q; if (check(niceBounds(8), &q, true, 1) != 1 && check({}, &q, true, 1) != 1) return; setHint(q); }
  char fn[512]; snprintf(fn, 512, "%s/wit.%05ld", g_out.c_str(), (long)S->nwit++); FILE *f = fopen(fn, "w"); if (!f) return; fprintf(f, "harness %s\n", (*g_reg)[g_h].first);
  for (auto &in : inputs) { Expr *e = in.second; if (e->sort == REAL) { auto it = realHint.find(monos[e->r->num->t[0].first][0].first); fprintf(f, "var %s d %a\n", in.first.c_str(), it == realHint.end() ? 0.5 : it->second); } else { u64 v = bvHint[-1 - (int)e->id]; if (e->sort == BV) fprintf(f, "var %s i %ld\n", in.first.c_str(), (long)sx(v, e->bits)); else fprintf(f, "var %s d %a\n", in.first.c_str(), b2d(v)); } }
  fclose(f);
}
static void finishPath() { S->h[g_h].paths++; try { witness(); } catch (...) {} long n = exprs.size(), m = S->exprs_max; while (n > m && !S->exprs_max.compare_exchange_weak(m, n)) {} end_path(); }

template <class Fn> static auto guard(Fn f) -> decltype(f()) {
  try { return f(); } catch (Unsupported &u) { end_inconclusive("unsupported: " + u.why); } catch (z3::exception &e) { end_inconclusive(std::string("z3: ") + e.msg()); }
}

// ------------------------------------------------------------------ shadow memory
struct Page { Expr *e[4096]; unsigned char i[4096]; int live; };
static std::unordered_map<u64, Page *> pages; static unsigned char bloom[1 << 20]; static u64 lastPg = ~0ull; static Page *lastP = nullptr;
static inline unsigned bh(u64 pg) { return (unsigned)((pg * 0x9E3779B97F4A7C15ull) >> 44); }
static inline Page *page(u64 pg) { if (!bloom[bh(pg)]) return nullptr; if (pg == lastPg) return lastP; auto it = pages.find(pg); if (it == pages.end()) return nullptr; lastPg = pg; lastP = it->second; return it->second; }
static Page *pageC(u64 pg) { Page *p = page(pg); if (p) return p; p = (Page *)calloc(1, sizeof(Page)); pages[pg] = p; bloom[bh(pg)] = 1; lastPg = pg; lastP = p; return p; }
static inline Expr *cell(u64 a, int &idx) { Page *p = page(a >> 12); if (!p) return nullptr; idx = p->i[a & 4095]; return p->e[a & 4095]; }
static inline void setCell(u64 a, Expr *e, int idx) { if (!e) { Page *p = page(a >> 12); if (p) p->e[a & 4095] = nullptr; return; } Page *p = pageC(a >> 12); p->e[a & 4095] = e; p->i[a & 4095] = idx; }
static bool anyShadow(u64 a, u64 n) { for (u64 k = 0; k < n;) { Page *p = page((a + k) >> 12); u64 lim = 4096 - ((a + k) & 4095); if (lim > n - k) lim = n - k; if (p) for (u64 j = 0; j < lim; j++) if (p->e[(a + k + j) & 4095]) return true; k += lim; } return false; }

static bool constBits(Expr *e, u64 &v) { // concrete machine representation when exactly known
  if (e->sort == BV && isC(e)) { v = e->val; return true; }
  if (e->sort == FP && e->op == O_CONST) { v = e->val; return true; }
  if (e->sort == REAL) { if (e->op == O_RSPEC) { v = e->val; return true; } mpq_class q; if (rIsConst(e, &q)) { double d = q2d(q); if (g_exact && mpq_class(d) != q) return false; v = d2b(d); return true; } }
  return false;
}
static Expr *fpconst(double d) { return mk(FP, O_CONST, 64, 0, 0, 0, d2b(d)); }
static Expr *asFP(u64 v, Expr *s) { if (!s) return fpconst(b2d(v)); if (s->sort == FP) return s; if (s->sort == REAL) { u64 x; if (constBits(s, x)) return fpconst(b2d(x)); throw Unsupported{"real in fp mode"}; } if (isC(s)) return fpconst(b2d(s->val)); if (s->op == O_FBITS) return s->a; return mk(FP, O_FFROMBITS, 64, s); }
static Expr *asBV(u64 v, Expr *s, unsigned bits) {
  if (!s) return bvc(v, bits); 
  if (s->sort == BV) { if (s->bits == bits) return s; if (s->bits < bits) return mkzext(s, bits); return mkext(s, 0, bits); }
  u64 x; if (constBits(s, x)) return bvc(x, bits); if (s->sort == FP) { Expr *b = mk(BV, O_FBITS, 64, s); return bits == 64 ? b : mkext(b, 0, bits); }
  throw Unsupported{"bits of a symbolic real"};
}
static Expr *simp(Expr *e) { return e; }
// ------------------------------------------------------------------ conflicting accesses of unordered tasks
struct RaceRec { int w = 0, r = 0; int mw = -1, mr = -1; bool sync = false; }; // task that wrote / read (-1: several); number of tasks queued when the main thread last wrote / read
static std::unordered_map<u64, RaceRec> raceAt; static bool R_on = false; static int R_task = 0, R_epoch = 0, R_outstanding = 0, R_off = 0, R_races = 0, R_locks = 0; static u64 R_base = 0; static std::map<int, int> R_joined; // task -> last task queued when it was joined
static bool R_busy = false; struct RaceBusy { RaceBusy() { R_busy = true; } ~RaceBusy() { R_busy = false; } };
static void raceErase(char *p, u64 n) { if (R_busy || raceAt.empty()) return; RaceBusy b; for (u64 k = 0; k < n; k++) raceAt.erase((u64)p + k); }
static void raceAccess(char *p, u64 n, int w) {
  u64 a = (u64)p, tls = (u64)__builtin_thread_pointer(); if (a > tls - 65536 && a < tls + 4096) return; // thread locals
  if (R_task && a < R_base && a > (u64)__builtin_frame_address(0) - 256) return; // the task's own stack
  static bool log = getenv("SYMX_RACELOG"); if (log) fprintf(stderr, "acc %d task %d %p %lu %c\n", getpid(), R_task, p, (unsigned long)n, w ? 'w' : 'r');
  if (R_locks) return; RaceBusy busy;
  for (u64 k = 0; k < n; k++) {
    RaceRec &c = raceAt[a + k]; if (c.sync) continue; bool bad = false; auto open = [&](int u) { if (u == -1) return true; auto it = R_joined.find(u); return it == R_joined.end() || (R_task && it->second >= R_task); };
    if (R_task) { int t = R_task; if (c.w && c.w != t && open(c.w)) bad = true; if (c.mw >= t) bad = true; if (w && c.r && c.r != t && open(c.r)) bad = true; if (w && c.mr >= t) bad = true; if (w) c.w = t; else c.r = (!c.r || c.r == t || (c.r > 0 && !open(c.r))) ? t : -1; }
    else { if (c.w && open(c.w)) bad = true; if (w && c.r && open(c.r)) bad = true; if (w) c.mw = R_epoch; else c.mr = R_epoch; }
    if (bad) { R_races++; if (g_verbose && R_races < 3) fprintf(stderr, "[symx] race at %p task %d write %d size %lu: w %d r %d mw %d mr %d base %lx sp %p epoch %d\n", p, R_task, w, (unsigned long)n, c.w, c.r, c.mw, c.mr, (unsigned long)R_base, __builtin_frame_address(0), R_epoch); if (getenv("SYMX_RACETRACE")) { void *bt[40]; int n = backtrace(bt, 40); backtrace_symbols_fd(bt, n, 2); } return; }
  }
}

extern "C" {
void *sx_enter(void *f, int fid) { if (fid < 400000) S->cov[fid] = 1; if (__sx_callee == f) { __sx_callee = nullptr; return __sx_args; } __sx_callee = nullptr; return g_zero; }
void *sx_ret(void *f) { if (__sx_retfn == f) { __sx_retfn = nullptr; return __sx_retslots; } return g_zero; }
void *sx_ret_api(void *) { return __sx_retslots; }
void sx_clear(char *a_, u64 n) {
  u64 a = (u64)a_; for (u64 k = 0; k < n;) { Page *p = page((a + k) >> 12); u64 off = (a + k) & 4095, lim = 4096 - off; if (lim > n - k) lim = n - k; if (p) memset(&p->e[off], 0, lim * sizeof(Expr *)); k += lim; }
}
void sx_free(char *p) { if (p) { if (R_on) raceErase(p, malloc_usable_size(p)); sx_clear(p, malloc_usable_size(p)); } }
__attribute__((noinline)) void sx_access(char *p, u64 n, int w) { if (R_on && !R_off && R_outstanding > 0) raceAccess(p, n, w); }
void sx_lock(int d) { R_locks += d; }
void sx_atomic(char *p) { if (!R_on) return; RaceBusy b; for (int k = 0; k < 8; k++) raceAt[(u64)p + k].sync = true; }
void symx_task_(int what, int id) {
  R_on = true; extern char __libc_single_threaded; __libc_single_threaded = 0;
  RaceBusy busy; switch (what) {
  case 1: R_epoch = id; R_outstanding++; break;
  case 2: R_task = id; R_base = (u64)__builtin_frame_address(0) + 80; break;
  case 3: R_task = 0; break;
  case 4: R_joined[id] = R_epoch; if (--R_outstanding == 0) { for (auto it = raceAt.begin(); it != raceAt.end();) if (it->second.sync) ++it; else it = raceAt.erase(it); } break;
  case 5: R_off++; break;
  case 6: R_off--; break;
  }
}
int symx_races_(void) { __sx_retslots[0] = nullptr; return R_races; }
void sx_store(char *a_, int size, int bits, Expr *s) {
  u64 a = (u64)a_; if (!s) { sx_clear(a_, size); return; }
  u64 v; if (constBits(s, v)) { memcpy(a_, &v, size > 8 ? 8 : size); sx_clear(a_, size); return; }
  if (s->sort == BV && s->bits != size * 8) s = s->bits < size * 8 ? mkzext(s, size * 8) : mkext(s, 0, size * 8);
  if (s->sort != BV && size != 8) end_inconclusive("store of a real with size != 8");
  for (int k = 0; k < size; k++) setCell(a + k, s, k);
}
Expr *sx_load(char *a_, int size, int bits) {
  u64 a = (u64)a_; if (!page(a >> 12) && !page((a + size - 1) >> 12)) return nullptr;
  int idx; Expr *e0 = cell(a, idx); bool same = e0 && idx == 0, any = e0 != nullptr; int i0 = idx;
  for (int k = 1; k < size; k++) { int ii; Expr *e = cell(a + k, ii); if (e) any = true; if (e != e0 || ii != i0 + k) same = false; }
  if (!any) return nullptr;
  return guard([&]() -> Expr * {
    if (same && (e0->sort != BV ? size == 8 : (int)e0->bits == size * 8)) return e0->sort == BV && bits < (int)e0->bits ? mkext(e0, 0, bits) : e0;
    Expr *r = nullptr;
    for (int k = 0; k < size; k++) { int ii = 0; Expr *e = cell(a + k, ii); Expr *byte = e ? mkext(asBV(0, e, e->sort == BV ? e->bits : 64), ii * 8, 8) : bvc((unsigned char)a_[k], 8); r = r ? mkconcat(byte, r) : byte; }
    return bits < (int)r->bits ? mkext(r, 0, bits) : r;
  });
}
void sx_memcpy(char *d, char *s, u64 n) {
  if (n) { sx_access(s, n, 0); sx_access(d, n, 1); }
  if (!n || d == s) return; bool as = anyShadow((u64)s, n); if (!as) { sx_clear(d, n); return; }
  std::vector<std::pair<Expr *, int>> t(n); for (u64 k = 0; k < n; k++) { int i = 0; Expr *e = cell((u64)s + k, i); t[k] = {e, i}; }
  for (u64 k = 0; k < n; k++) setCell((u64)d + k, t[k].first, t[k].second);
}
void sx_memset(char *d, Expr *s, u64 n) { if (n) sx_access(d, n, 1); s = s->bits > 8 ? mkext(s, 0, 8) : s; for (u64 k = 0; k < n; k++) sx_store(d + k, 1, 8, s); }
void sx_realloc(char *o, char *nw, u64 n) { if (!nw) return; if (o && o != nw) { u64 m = std::min<u64>(n, malloc_usable_size(nw)); sx_memcpy(nw, o, m); sx_clear(o, m); } }
void sx_byval(char *d, char *s, u64 n) { if (s) sx_memcpy(d, s, n); else sx_clear(d, n); }
void sx_expect_concrete(char *a, u64 n) { if (anyShadow((u64)a, n)) end_inconclusive("wide or atomic access to symbolic memory"); }
Expr *sx_wide(Expr *a, Expr *b) { if (!a && !b) return nullptr; end_inconclusive(">64-bit symbolic arithmetic"); }
i64 sx_concretize(u64 v, Expr *s, int bits, const char *why);
Expr *sx_memcmp(char *a, char *b, u64 n, int isb) {
  if (!anyShadow((u64)a, n) && !anyShadow((u64)b, n)) return nullptr;
  return guard([&]() -> Expr * {
    Expr *r = bvc(0, 32); 
    for (u64 k = n; k-- > 0;) { Expr *x = sx_load(a + k, 1, 8), *y = sx_load(b + k, 1, 8); x = asBV((unsigned char)a[k], x, 8); y = asBV((unsigned char)b[k], y, 8); r = mkite(mkcmp(32, x, y), r, mkite(mkcmp(36, x, y), bvc(-1, 32), bvc(1, 32))); }
    return r; });
}
Expr *sx_bin(int op, int bits, u64 a, Expr *sa, u64 b, Expr *sb) {
  if (!sa && !sb) return nullptr;
  return guard([&]() -> Expr * {
    auto nonc = [](Expr *e) { u64 v; return e && e->sort != BV && !constBits(e, v); };
    if (bits == 64 && (nonc(sa) || nonc(sb))) { // bit tricks on doubles
      Expr *f = nonc(sa) ? sa : sb; Expr *o = nonc(sa) ? sb : sa; u64 k = nonc(sa) ? b : a; bool kc = true; if (o) kc = constBits(o, k);
      if (kc && op == AND && k == 0x7fffffffffffffffull) return f->sort == REAL ? rabs(f) : mk(FP, O_FABS, 64, f);
      if (kc && op == XOR && k == 0x8000000000000000ull) return f->sort == REAL ? rneg(f) : mk(FP, O_FNEG, 64, f);
      if (kc && op == OR && k == 0x8000000000000000ull) return f->sort == REAL ? rneg(rabs(f)) : mk(FP, O_FNEG, 64, mk(FP, O_FABS, 64, f));
      if (kc && op == AND && k == 0x8000000000000000ull && f->sort == REAL) return bvc(branchOn(rcmp(O_RLT, f)) ? k : 0, 64);
    }
    Expr *x = asBV(a, sa, bits), *y = asBV(b, sb, bits);
    if (op == UDIV || op == SDIV || op == UREM || op == SREM) { if (branchOn(mkcmp(32, y, bvc(0, bits)))) { if (g_allow_abort) end_path(); pathFailure("abort", "integer division by zero"); } }
    return mkbin(op, bits, x, y); });
}
Expr *sx_ovf(int op, int sg, int bits, u64 a, Expr *sa, u64 b, Expr *sb) { if (!sa && !sb) return nullptr; return guard([&] { Expr *x = asBV(a, sa, bits), *y = asBV(b, sb, bits); 
  if (isC(x) && isC(y)) { __int128 p = sg ? (__int128)sx(x->val, bits) : x->val, q = sg ? (__int128)sx(y->val, bits) : y->val; __int128 r = op == ADD ? p + q : op == SUB ? p - q : p * q; bool o = sg ? (r != (__int128)sx((u64)r & mask(bits), bits)) : (r < 0 || r > (__int128)mask(bits)); return bvc(o, 1); }
  return mk(BV, O_OVF, 1, x, y, 0, op | sg << 8); }); }
static Expr *rround(const char *n, Expr *x);
Expr *sx_fbin(int op, int bits, u64 a, Expr *sa, u64 b, Expr *sb) {
  if (!sa && !sb) {
    if (!g_exact || bits != 64) return nullptr;
    double x = b2d(a), y = b2d(b), r; 
    switch (op) { case FADD: case FSUB: { if (op == FSUB) y = -y; r = x + y; if (!std::isfinite(r)) return nullptr; double bb = r - x, e = (x - (r - bb)) + (y - bb); if (e == 0) return nullptr; break; }
      case FMUL: r = x * y; if (!std::isfinite(r) || (r == 0) || (std::fabs(r) > 1e-280 && std::fma(x, y, -r) == 0)) return nullptr; if (std::fabs(r) < 1e-280) return nullptr; break;
      case FDIV: r = x / y; if (!std::isfinite(r) || y == 0 || std::fma(r, y, -x) == 0) return nullptr; break; default: return nullptr; }
    if (std::fabs(x) > 1e290 || std::fabs(y) > 1e290 || (op != FADD && op != FSUB && (std::fabs(x) < 1e-290 || std::fabs(y) < 1e-290))) return nullptr;
    return guard([&]() -> Expr * { mpq_class p(x), q(y); return rconst(op == FMUL ? mpq_class(p * q) : op == FDIV ? mpq_class(p / q) : mpq_class(p + q)); });
  }
  return guard([&]() -> Expr * {
    if ((sa && sa->sort == FP) || (sb && sb->sort == FP) || g_fp) {
      if (bits != 64) throw Unsupported{"float arithmetic"};
      Expr *x = asFP(a, sa), *y = asFP(b, sb); 
      if (x->op == O_CONST && y->op == O_CONST) { double p = b2d(x->val), q = b2d(y->val); return fpconst(op == FADD ? p + q : op == FSUB ? p - q : op == FMUL ? p * q : op == FDIV ? p / q : std::fmod(p, q)); }
      if (op == FREM) throw Unsupported{"frem"};
      return mk(FP, O_FBIN, 64, x, y, 0, op);
    }
    Expr *x = asReal(a, sa, bits), *y = asReal(b, sb, bits);
    if (bits == 32) { mpq_class p, q; if (!(x->op == O_RSPEC || rIsConst(x, &p)) || !(y->op == O_RSPEC || rIsConst(y, &q))) throw Unsupported{"float arithmetic"}; }
    switch (op) { case FADD: return radd(x, y); case FSUB: return radd(x, y, -1); case FMUL: return rmul(x, y); case FDIV: return rdiv(x, y); }
    throw Unsupported{"frem"}; });
}
Expr *sx_icmp(int pred, int bits, u64 a, Expr *sa, u64 b, Expr *sb) {
  if (!sa && !sb) return nullptr;
  return guard([&]() -> Expr * {
    auto nonc = [](Expr *e) { u64 v; return e && e->sort == REAL && !constBits(e, v); };
    if (nonc(sa) || nonc(sb)) {
      Expr *x = asReal(a, sa, 64), *y = asReal(b, sb, 64); 
      if (pred == 32 || pred == 33) { Expr *c = rcmp(O_REQ, radd(x, y, -1)); return pred == 32 ? c : bnot(c); }
      u64 k; if (nonc(sa) && (sb ? constBits(sb, k) : (k = b, true))) { if (pred == 40 && k == 0) return rcmp(O_RLT, x); if (pred == 38 && k == ~0ull) return bnot(rcmp(O_RLT, x)); if (pred == 39 && k == 0) return bnot(rcmp(O_RLT, x)); }
      throw Unsupported{"integer comparison of double bits"};
    }
    return mkcmp(pred, asBV(a, sa, bits), asBV(b, sb, bits)); });
}
static Expr *fcmpReal(int p, Expr *x, Expr *y) {
  auto isnanE = [](Expr *e) { return e->op == O_RSPEC && std::isnan(b2d(e->val)); };
  if (isnanE(x) || isnanE(y)) return bvc((p & 8) ? 1 : 0, 1);
  if (p == 7) return T(); if (p == 8) return F_(); p &= 7; if (p == 0) return F_(); if (p == 7) return T();
  auto huge = [](Expr *e, int &sg) { mpq_class q; if (e->op == O_RSPEC) { sg = b2d(e->val) > 0 ? 1 : -1; return true; } if (rIsConst(e, &q)) { double d = q2d(q); if (std::fabs(d) > 1e290) { sg = d > 0 ? 1 : -1; return true; } } return false; };
  auto tiny = [](Expr *e) { mpq_class q; if (rIsConst(e, &q) && sgn(q) != 0 && std::fabs(q2d(q)) < 1e-280) return true; return false; };
  int sx_, sy; bool hx = huge(x, sx_), hy = huge(y, sy); mpq_class q;
  auto rel = [&](int c) { return bvc(((p & 1) && c == 0) || ((p & 2) && c > 0) || ((p & 4) && c < 0), 1); };
  if (hx && hy) { double a = x->op == O_RSPEC ? b2d(x->val) : (rIsConst(x, &q), q2d(q)), b = y->op == O_RSPEC ? b2d(y->val) : (rIsConst(y, &q), q2d(q)); return rel(a == b ? 0 : a < b ? -1 : 1); }
  if (hx) return rel(sx_); if (hy) return rel(-sy);
  if (tiny(x) && !rIsConst(y)) x = rconst(0); if (tiny(y) && !rIsConst(x)) y = rconst(0);
  Expr *d = radd(x, y, -1);
  switch (p) { case 1: return rcmp(O_REQ, d); case 2: return rcmp(O_RLT, rneg(d)); case 3: return rcmp(O_RLE, rneg(d)); case 4: return rcmp(O_RLT, d); case 5: return rcmp(O_RLE, d); default: return bnot(rcmp(O_REQ, d)); }
}
Expr *sx_fcmp(int pred, int bits, u64 a, Expr *sa, u64 b, Expr *sb) {
  if (!sa && !sb) return nullptr;
  return guard([&]() -> Expr * {
    if (pred == 0) return F_(); if (pred == 15) return T();
    if ((sa && sa->sort == FP) || (sb && sb->sort == FP)) { Expr *x = asFP(a, sa), *y = asFP(b, sb); if (x->op == O_CONST && y->op == O_CONST) { double p = b2d(x->val), q = b2d(y->val); return bvc(((pred & 1) && p == q) || ((pred & 2) && p > q) || ((pred & 4) && p < q) || ((pred & 8) && (std::isnan(p) || std::isnan(q))), 1); } return mk(BV, O_FCMP, 1, x, y, 0, pred); }
    return fcmpReal(pred, asReal(a, sa, bits), asReal(b, sb, bits)); });
}
Expr *sx_fpclass(int bits, Expr *s, int m) {
  if (!s) return nullptr;
  return guard([&]() -> Expr * {
    if (s->sort == FP) return mk(BV, O_FCLASS, 1, s, 0, 0, m); Expr *x = asReal(0, s, bits); 
    u64 v; if (constBits(x, v)) { double d = b2d(v); int c = std::isnan(d) ? 3 : std::isinf(d) ? (d < 0 ? 4 : 512) : d == 0 ? 96 : d < 0 ? 8 : 256; return bvc((m & c) != 0, 1); }
    Expr *r = F_(); if (m & 0x18) r = bor(r, rcmp(O_RLT, x)); if (m & 0x60) r = bor(r, rcmp(O_REQ, x)); if (m & 0x180) r = bor(r, rcmp(O_RLT, rneg(x))); 
    if ((m & 0x1f8) == 0x1f8) return T(); return r; });
}
Expr *sx_cast(int op, int from, int to, Expr *s) {
  if (!s) return nullptr;
  return guard([&]() -> Expr * {
    // Trunc 38 ZExt 39 SExt 40 FPToUI 41 FPToSI 42 UIToFP 43 SIToFP 44 FPTrunc 45 FPExt 46 PtrToInt 47 IntToPtr 48
    switch (op) {
    case 38: return mkext(asBV(0, s, from), 0, to); case 39: return mkzext(asBV(0, s, from), to); case 40: return mksext(asBV(0, s, from), to);
    case 47: case 48: return s->sort == BV ? asBV(0, s, to) : s;
    case 43: case 44: {
      if (to != 64) throw Unsupported{"int to float"};
      Expr *b = asBV(0, s, from); if (isC(b)) { double d = op == 44 ? (double)sx(b->val, from) : (double)b->val; return g_fp ? fpconst(d) : fromDouble(d); }
      if (g_fp) return mk(FP, O_FFROMBV, 64, b, 0, 0, op == 44);
      u64 v = sx_concretize(0, b, from, "int2double"); return fromDouble(op == 44 ? (double)sx(v, from) : (double)(v & mask(from))); }
    case 41: case 42: {
      if (s->sort == FP) { if (s->op == O_CONST) { double d = b2d(s->val); return bvc(op == 42 ? (u64)(i64)d : (u64)d, to); } return mk(BV, O_FTOBV, to, s, 0, 0, op == 42); }
      Expr *x = asReal(0, s, from); u64 v; if (constBits(x, v)) { double d = b2d(v); return bvc(op == 42 ? (u64)(i64)d : (u64)d, to); }
      Expr *fl = branchOn(rcmp(O_RLT, x)) ? rneg(rfloor(rneg(x))) : rfloor(x); mpq_class q; if (rIsConst(fl, &q)) return bvc((u64)(i64)q2d(q), to);
      for (int tries = 0; tries < 64; tries++) { // enumerate feasible integers
        QR qq; z3::context &c = *Z; (void)c; std::vector<Expr *> none; int r = check({rcmp(O_RLE, radd(fl, rconst(1000000), -1))}, &qq); if (r == 0) throw Unsupported{"fptoint out of range"};
        Num sv = realHint; auto sb = bvHint; setHint(qq); double d; bool ok = numReal(fl, d); realHint = sv; bvHint = sb; if (!ok) throw Unsupported{"fptoint: no model"};
        d = std::round(d); if (branchOn(rcmp(O_REQ, radd(fl, rconst(mpq_class(d)), -1)))) return bvc((u64)(i64)d, to); }
      throw Unsupported{"fptoint: too many values"}; }
    case 45: { u64 v; if (constBits(s, v)) { float f = (float)b2d(v); uint32_t w; memcpy(&w, &f, 4); return bvc(w, 32); } throw Unsupported{"double to float"}; }
    case 46: { if (s->sort == BV && isC(s)) { uint32_t w = s->val; float f; memcpy(&f, &w, 4); return g_fp ? fpconst(f) : fromDouble(f); } throw Unsupported{"float to double"}; }
    }
    throw Unsupported{"cast " + std::to_string(op)}; });
}
static double mathC(const std::string &n, double a, double b, bool &ok) {
  ok = true;
  if (n == "exp") return std::exp(a); if (n == "exp2") return std::exp2(a); if (n == "log") return std::log(a); if (n == "log2") return std::log2(a); if (n == "log10") return std::log10(a); if (n == "log1p") return std::log1p(a); if (n == "expm1") return std::expm1(a); if (n == "pow") return std::pow(a, b); if (n == "sqrt") return std::sqrt(a); if (n == "sin") return std::sin(a); if (n == "cos") return std::cos(a); if (n == "tan") return std::tan(a); if (n == "acos") return std::acos(a); if (n == "asin") return std::asin(a); if (n == "atan") return std::atan(a); if (n == "atan2") return std::atan2(a, b); if (n == "sinh") return std::sinh(a); if (n == "cosh") return std::cosh(a); if (n == "tanh") return std::tanh(a);
  if (n == "floor") return std::floor(a); if (n == "ceil") return std::ceil(a); if (n == "round") return std::round(a); if (n == "trunc") return std::trunc(a); if (n == "rint") return std::rint(a); if (n == "nearbyint") return std::nearbyint(a); if (n == "fabs") return std::fabs(a); if (n == "fmin") return std::fmin(a, b); if (n == "fmax") return std::fmax(a, b); if (n == "erf") return std::erf(a); if (n == "erfc") return std::erfc(a); if (n == "lgamma") return std::lgamma(a); if (n == "tgamma") return std::tgamma(a); if (n == "hypot") return std::hypot(a, b); if (n == "fmod") return std::fmod(a, b); if (n == "cbrt") return std::cbrt(a); if (n == "copysign") return std::copysign(a, b); if (n == "fneg") return -a;
  ok = false; return 0;
}
Expr *sx_math(const char *nm, int bits, u64 a, Expr *sa, u64 b, Expr *sb) {
  std::string n = nm;
  if (!sa && !sb) {
    if (!g_exact || bits != 64) return nullptr; double x = b2d(a);
    if (n == "fneg" || n == "fabs" || n == "fabsinf" || n == "fmin" || n == "fmax" || n == "copysign" || n == "floor" || n == "ceil" || n == "round" || n == "trunc" || n == "rint") return nullptr;
    if (n == "sqrt") { double r = std::sqrt(x); if (!(x > 0) || !std::isfinite(r) || std::fma(r, r, -x) == 0) return nullptr; }
    if (!std::isfinite(x)) return nullptr; if (n == "exp" && x == 0) return nullptr; if (n == "log" && (x <= 0 || x == 1)) return nullptr; if (n == "pow") { double y = b2d(b); if (y == 0 || y == 1 || x <= 0) return nullptr; }
  }
  return guard([&]() -> Expr * {
    if (n == "fabsinf") { if (!(sa && sa->sort == FP)) { Expr *x = asReal(a, sa, bits); if (x->op != O_RSPEC) return x; } n = "fabs"; } // only compared with infinity
    if ((sa && sa->sort == FP) || (sb && sb->sort == FP)) {
      Expr *x = asFP(a, sa), *y = asFP(b, sb); bool ok; if (x->op == O_CONST && (!sb || y->op == O_CONST)) { double r = mathC(n, b2d(x->val), b2d(y->val), ok); if (ok) return fpconst(r); }
      if (n == "fneg") return mk(FP, O_FNEG, 64, x); if (n == "fabs") return mk(FP, O_FABS, 64, x); if (n == "sqrt") return mk(FP, O_FSQRT, 64, x);
      if (n == "floor") return mk(FP, O_FRTI, 64, x, 0, 0, 0); if (n == "ceil") return mk(FP, O_FRTI, 64, x, 0, 0, 1); if (n == "trunc") return mk(FP, O_FRTI, 64, x, 0, 0, 2); if (n == "round") return mk(FP, O_FRTI, 64, x, 0, 0, 3); if (n == "rint" || n == "nearbyint") return mk(FP, O_FRTI, 64, x, 0, 0, 4);
      if (n == "fmin" || n == "fmax") { Expr *lt = mk(BV, O_FCMP, 1, x, y, 0, n == "fmin" ? 4 : 2); Expr *xn = mk(BV, O_FCLASS, 1, x, 0, 0, 3); Expr *yn = mk(BV, O_FCLASS, 1, y, 0, 0, 3); return mk(FP, O_FITE, 64, yn, x, mk(FP, O_FITE, 64, xn, y, mk(FP, O_FITE, 64, lt, x, y))); }
      throw Unsupported{"fp math " + n};
    }
    Expr *x = asReal(a, sa, bits); Expr *y = (n == "pow" || n == "fmin" || n == "fmax" || n == "copysign" || n == "hypot" || n == "atan2" || n == "fmod") ? asReal(b, sb, bits) : nullptr;
    mpq_class q, p; bool cx = x->op == O_RSPEC || rIsConst(x, &q), cy = !y || y->op == O_RSPEC || rIsConst(y, &p);
    if (n == "fneg") return rneg(x); if (n == "fabs") return rabs(x);
    if (bits == 32 && !(cx && cy)) throw Unsupported{"float math"};
    if (cx && cy && (!g_exact || x->op == O_RSPEC)) { bool ok; double dx = x->op == O_RSPEC ? b2d(x->val) : q2d(q), dy = !y ? 0 : y->op == O_RSPEC ? b2d(y->val) : q2d(p); double r = mathC(n, dx, dy, ok); if (ok) return fromDouble(r); }
    if (n == "sqrt") return rsqrt(x); if (n == "exp") return rexp(x); if (n == "log") return rlog(x);
    if (n == "log2") return rdiv(rlog(x), fromDouble(std::log(2.0))); if (n == "log10") return rdiv(rlog(x), fromDouble(std::log(10.0))); if (n == "exp2") return rexp(rmul(x, fromDouble(std::log(2.0))));
    if (n == "log1p") return rlog(radd(x, rconst(1))); if (n == "expm1") return radd(rexp(x), rconst(1), -1);
    if (n == "pow") {
      if (cy && y->op != O_RSPEC) { if (p.get_den() == 1 && abs(p) <= 64) return rpowi(x, mpz_get_si(p.get_num_mpz_t())); if (p.get_den() == 2 && abs(p) <= 32) return rpowi(rsqrt(x), mpz_get_si(p.get_num_mpz_t())); }
      if (x->op == O_RSPEC || (y && y->op == O_RSPEC)) throw Unsupported{"pow of inf/nan"};
      if (cx && q == 1) return x;
      return app("pow", {x, y}, 0); }
    if (n == "floor") return rfloor(x); if (n == "ceil") return rneg(rfloor(rneg(x)));
    if (n == "trunc") return branchOn(rcmp(O_RLT, x)) ? rneg(rfloor(rneg(x))) : rfloor(x);
    if (n == "round") return branchOn(rcmp(O_RLT, x)) ? rneg(rfloor(radd(rneg(x), rconst(mpq_class(1, 2))))) : rfloor(radd(x, rconst(mpq_class(1, 2))));
    if (n == "fmin" || n == "fmax") { auto nn = [](Expr *e) { return e->op == O_RSPEC && std::isnan(b2d(e->val)); }; if (nn(x)) return y; if (nn(y)) return x; bool lt = branchOn(fcmpReal(4, x, y)); return (n == "fmin") == lt ? x : y; }
    if (n == "copysign") { Expr *m = rabs(x); bool ng = y->op == O_RSPEC ? std::signbit(b2d(y->val)) : branchOn(rcmp(O_RLT, y)); return ng ? rneg(m) : m; }
    if (n == "hypot") return rsqrt(radd(rmul(x, x), rmul(y, y)));
    if (n == "cosh") { Expr *e = rexp(x); return rmul(rconst(mpq_class(1, 2)), radd(e, rinv(e))); }
    if (n == "sinh") { Expr *e = rexp(x); return rmul(rconst(mpq_class(1, 2)), radd(e, rinv(e), -1)); }
    if (x->op == O_RSPEC) { bool ok; double r = mathC(n, b2d(x->val), 0, ok); if (ok) return fromDouble(r); }
    if (n == "sin" || n == "tan" || n == "atan" || n == "asin" || n == "erf" || n == "tanh") { if (x->r->num->t.size() && sgn(x->r->num->t[0].second) < 0) return rneg(app(n, {rneg(x)})); return app(n, {x}); }
    if (n == "cos") { if (sgn(x->r->num->t[0].second) < 0) return app(n, {rneg(x)}); return app(n, {x}); }
    if (n == "erfc") return radd(rconst(1), !x->r->num->t.empty() && sgn(x->r->num->t[0].second) < 0 ? rneg(app("erf", {rneg(x)})) : app("erf", {x}), -1);
    if (y) return app(n, {x, y}); return app(n, {x}); });
}
Expr *sx_powi(int bits, u64 a, Expr *sa, int e) { if (!sa) return nullptr; return guard([&]() -> Expr * { if (sa->sort == FP) { throw Unsupported{"fp powi"}; } return rpowi(asReal(a, sa, bits), e); }); }
bool sx_branch(bool c, Expr *s) { if (!s) return c; return guard([&] { if (s->bits != 1) s = mkext(s, 0, 1); return branchOn(s); }); }
i64 sx_switch(u64 v, Expr *s, int bits, u64 *cases, int n) {
  if (!s) return v;
  return guard([&]() -> i64 { Expr *b = asBV(v, s, bits); if (isC(b)) return b->val; std::set<u64> cs; 
    for (int i = 0; i < n; i++) { cs.insert(cases[i] & mask(bits)); if (branchOn(mkcmp(32, b, bvc(cases[i], bits)))) return cases[i]; }
    u64 d = 0; while (cs.count(d)) d++; return d; });
}
int sx_seldir(bool c, Expr *s, int kind) {
  if (!s) return c; return guard([&]() -> int { if (s->bits != 1) s = mkext(s, 0, 1); if (isC(s)) return s->val; if (kind == 2 || (kind == 1 && !g_fp)) return branchOn(s); 
    for (auto *p : pc) { if (p == s) return 1; if (p == bnot(s)) return 0; } return 2; });
}
Expr *sx_select(int d, Expr *sc, int bits, int kind, u64 a, Expr *sa, u64 b, Expr *sb) {
  if (d == 1) { return sa ? sa : (Expr *)nullptr; } if (d == 0) return sb;
  return guard([&]() -> Expr * { if (sc->bits != 1) sc = mkext(sc, 0, 1); if (kind == 1 || (sa && sa->sort == FP) || (sb && sb->sort == FP)) return mk(FP, O_FITE, 64, sc, asFP(a, sa), asFP(b, sb)); 
    if ((sa && sa->sort == REAL) || (sb && sb->sort == REAL)) { bool t = branchOn(sc); Expr *r = t ? sa : sb; return r ? r : bvc(t ? a : b, bits); }
    return mkite(sc, asBV(a, sa, bits), asBV(b, sb, bits)); });
}
static bool iteTree(Expr *e, int depth = 0) { // a finite set of constants selected by conditions
  if (isC(e)) return true; if (depth > 60 || e->sort != BV) return false;
  if (e->op == O_ITE) return iteTree(e->b, depth + 1) && iteTree(e->c, depth + 1);
  if (e->bits == 1 && (e->op == O_RLT || e->op == O_RLE || e->op == O_REQ || e->op == O_CMP)) return false;
  if (e->op == O_ZEXT || e->op == O_SEXT || e->op == O_EXTRACT) return e->a->bits > 1 ? iteTree(e->a, depth + 1) : true;
  if (e->op < 130 && e->a && e->b && !e->c) return iteTree(e->a, depth + 1) && iteTree(e->b, depth + 1);
  return false;
}
static u64 resolveTree(Expr *e) {
  if (isC(e)) return e->val; if (e->op == O_ITE) return branchOn(e->a) ? resolveTree(e->b) : resolveTree(e->c);
  if (e->bits == 1 || (e->a->bits == 1 && e->op != O_EXTRACT)) { if (e->bits == 1) return branchOn(e); u64 b = branchOn(e->a); return e->op == O_SEXT ? (b ? mask(e->bits) : 0) : b; }
  u64 x = resolveTree(e->a), y, r = 0;
  if (e->op == O_ZEXT) return x; if (e->op == O_SEXT) return sx(x, e->a->bits) & mask(e->bits); if (e->op == O_EXTRACT) return (x >> e->val) & mask(e->bits);
  y = resolveTree(e->b); if (!evalBin(e->op, e->bits, x, y, r)) throw Unsupported{"index arithmetic"}; return r;
}
extern "C" i64 sx_concretize(u64 v, Expr *s, int bits, const char *why) {
  if (!s) return v;
  return guard([&]() -> i64 {
    u64 x; if (constBits(s, x)) return x; if (s->sort != BV) throw Unsupported{std::string("concretize real at ") + why};
    Expr *b = asBV(v, s, bits);
    if (g_concrete) { u64 r = 0; numBV(b, r); return r; }
    if (iteTree(b)) return (i64)resolveTree(b);
    for (int k = 0; k < 4096; k++) {
      u64 m; if (hintOk && numBV(b, m)) { } else { QR q; int r = check({}, &q, true); if (r != 1) throw Unsupported{std::string("no model for ") + why}; setHint(q); hintOk = hintSatisfiesPc(); if (!numBV(b, m)) throw Unsupported{std::string("cannot evaluate at ") + why}; }
      if (branchOn(mkcmp(32, b, bvc(m, bits)))) return m;
    }
    throw Unsupported{std::string("too many values at ") + why}; });
}
i64 sx_ext_fp(u64 v, Expr *s, int bits, const char *why) { if (!s) return v; u64 x; if (s->sort == REAL && s->op == O_RAT) { mpq_class q; if (rIsConst(s, &q)) return d2b(q2d(q)); } if (constBits(s, x)) return x; end_inconclusive(std::string("symbolic double passed to ") + why); }
void *sx_addr(void *p, Expr *s) { if (!s) return p; return (void *)sx_concretize((u64)p, s, 64, "address"); }

// ------------------------------------------------------------------ harness API
static std::map<std::string, int> nameCnt;
static std::string uniq(const char *n) { int k = nameCnt[n]++; return k ? std::string(n) + "#" + std::to_string(k) : std::string(n); }
static void clearRet() { for (int i = 0; i < 8; i++) __sx_retslots[i] = nullptr; }
double symx_double_(const char *name) {
  std::string n = uniq(name); Expr *e;
  if (g_fp) e = mk(FP, O_VAR, 64, 0, 0, 0, 0, nullptr, &n);
  else { int a = newAtom(A_VAR, "var:" + n, n, {}); e = atomExpr(a); }
  inputs.push_back({n, e}); clearRet(); __sx_retslots[0] = e; return 1.0;
}
long symx_int_(const char *name, long lo, long hi) {
  std::string n = uniq(name); clearRet(); if (lo == hi) return lo;
  Expr *e = mk(BV, O_VAR, 64, 0, 0, 0, 0, nullptr, &n); inputs.push_back({n, e});
  return guard([&]() -> long { addPc(mkcmp(39, e, bvc(lo, 64))); addPc(mkcmp(41, e, bvc(hi, 64))); bvHint[-1 - (int)e->id] = lo; hintOk = hintSatisfiesPc(); clearRet(); __sx_retslots[0] = e; return lo; });
}
long symx_concretize_(long v) { Expr *s = __sx_args[0]; clearRet(); if (!s) return v; long r = sx_concretize(v, s, 64, "choose"); clearRet(); return r; }
double symx_app_(const char *fn, double a, double b) { Expr *x = __sx_args[1]; clearRet(); return guard([&]() -> double { Expr *e = asReal(d2b(a), x, 64); Expr *r = app(std::string("u_") + fn, {e}); clearRet(); __sx_retslots[0] = r; return 1.0; }); }
void symx_assume_(int c) {
  Expr *s = __sx_args[0]; if (!s) { if (!c) { S->h[g_h].infeasible++; end_path(); } return; }
  guard([&] { Expr *b = s->bits == 1 ? s : mkcmp(33, s, bvc(0, s->bits)); if (isC(b)) { if (!b->val) { S->h[g_h].infeasible++; end_path(); } return; }
    u64 v; if (!(hintOk && numBV(b, v) && v)) { QR q; int r = check({b}, &q); if (r == 0) { S->h[g_h].infeasible++; end_path(); } if (r == 1) setHint(q); addPc(b); hintOk = hintSatisfiesPc(); } else addPc(b); });
}
static void doAssert(Expr *ok, Expr *wide, Expr *wide2, const char *lbl, const std::string &msg) {
  LabelStat *L = label(lbl); L->reached++; S->asserts++;
  if (isC(ok)) {
    S->syntactic++;
    if (ok->val) { L->proved++; return; }
    L->violated++; if (g_verbose) fprintf(stderr, "[symx] %s violated (constant) %s\n", lbl, msg.c_str()); candidates(lbl, "assert", nullptr, nullptr, nullptr, nullptr, msg); if (inputs.empty()) writeCand(lbl, "assert", {}, msg); return;
  }
  Expr *bad = bnot(ok); QR q; int r = 2; u64 v;
  if (hintOk && numBV(bad, v) && v) r = 1; 
  if (r != 1) r = check({bad}, &q);
  if (r == 0) { L->proved++; return; }
  if (r == 1) { L->violated++; if (g_verbose) fprintf(stderr, "[symx] %s violated\n", lbl); candidates(lbl, "assert", bad, wide, wide2, &q, msg); 
    int r2 = check({ok}, &q); if (r2 == 0) end_path(); setHint(q); addPc(ok); hintOk = hintSatisfiesPc(); return; }
  L->inconcl++; incmsg(std::string("solver gave up on ") + lbl); if (g_verbose) fprintf(stderr, "[symx] %s inconclusive\n", lbl);
  std::map<std::string, std::string> vals; if (sampleCand(wide ? wide : bad, vals, 2000) || (wide && sampleCand(bad, vals, 2000))) writeCand(lbl, "assert", vals, "sampled: " + msg);
}
void symx_assert_(int c, const char *lbl) {
  Expr *s = __sx_args[0]; guard([&] { Expr *b = !s ? bvc(c != 0, 1) : s->bits == 1 ? s : mkcmp(33, s, bvc(0, s->bits)); doAssert(b, nullptr, nullptr, lbl, "condition false"); });
}
void symx_assert_eq_(double a, double b, double tol, const char *lbl) {
  Expr *sa = __sx_args[0], *sb = __sx_args[1]; 
  guard([&] {
    if (!sa && !sb) { bool ok = (std::isnan(a) && std::isnan(b)) || a == b || std::fabs(a - b) <= tol * (1 + std::max(std::fabs(a), std::fabs(b))); char m[128]; snprintf(m, 128, "%.17g vs %.17g", a, b); doAssert(bvc(ok, 1), nullptr, nullptr, lbl, m); return; }
    if ((sa && sa->sort == FP) || (sb && sb->sort == FP)) { Expr *x = asFP(d2b(a), sa), *y = asFP(d2b(b), sb); Expr *ok = bor(mk(BV, O_FCMP, 1, x, y, 0, 1), band(mk(BV, O_FCLASS, 1, x, 0, 0, 3), mk(BV, O_FCLASS, 1, y, 0, 0, 3))); doAssert(ok, nullptr, nullptr, lbl, "not equal"); return; }
    Expr *x = asReal(d2b(a), sa, 64), *y = asReal(d2b(b), sb, 64);
    if (x->op == O_RSPEC || y->op == O_RSPEC) { bool ok = x == y; doAssert(bvc(ok, 1), nullptr, nullptr, lbl, "inf/nan mismatch"); return; }
    Expr *d = radd(x, y, -1); auto within = [&](const mpq_class &t) { return band(rcmp(O_RLE, radd(d, rconst(t), -1)), rcmp(O_RLE, radd(rneg(d), rconst(t), -1))); };
    mpq_class q; if (rIsConst(d, &q)) { double xx = 0, yy = 0; mpq_class z; if (rIsConst(x, &z)) xx = std::fabs(q2d(z)); if (rIsConst(y, &z)) yy = std::fabs(q2d(z)); doAssert(bvc(std::fabs(q2d(q)) <= tol * (1 + std::max(xx, yy)), 1), nullptr, nullptr, lbl, "constant difference " + std::to_string(q2d(q))); return; }
    doAssert(within(mpq_class(tol)), bnot(within(mpq_class(std::max(1e-2, tol * 100)))), bnot(within(mpq_class(std::max(1e-4, tol * 10)))), lbl, "values differ"); });
}
void symx_reach_(const char *l) { label(l)->reached++; }
void symx_mode_(int exact, int fp) { g_exact = exact; g_fp = fp; }
void symx_allow_abort_(int a) { g_allow_abort = a; }
int symx_is_symbolic_run_() { clearRet(); return 1; }
void symx_note_(const char *, const char *) {}

[[noreturn]] static void onAbort(const char *kind, const std::string &m) { if (g_allow_abort) { S->h[g_h].aborted_ok++; S->h[g_h].paths++; end_path(); } guard([&] { pathFailure(kind, m); }); end_path(); }
void __assert_fail(const char *e, const char *f, unsigned l, const char *) noexcept { const char *b = strrchr(f, '/'); onAbort("abort", std::string("assertion ") + e + " " + (b ? b + 1 : f) + ":" + std::to_string(l)); }
void abort() noexcept { onAbort("abort", "abort()"); }
void exit(int c) noexcept { (void)c; onAbort("abort", "exit()"); }
}
namespace std { void __glibcxx_assert_fail(const char *f, int l, const char *, const char *c) noexcept { const char *b = f ? strrchr(f, '/') : nullptr; onAbort("abort", std::string("container bounds: ") + (c ? c : "") + " " + (b ? b + 1 : "") + ":" + std::to_string(l)); } }
static void onTerm() { std::string m = "uncaught exception"; try { if (std::current_exception()) std::rethrow_exception(std::current_exception()); } catch (std::exception &e) { m = std::string("uncaught exception: ") + e.what(); } catch (...) {} onAbort("abort", m); }
static void onSig(int s) {
  if (s == SIGALRM) { S->h[g_h].inconcl++; incmsg("path hit the time limit"); end_path(); }
  sigset_t ss; sigemptyset(&ss); sigaddset(&ss, s); sigprocmask(SIG_UNBLOCK, &ss, nullptr);
  onAbort("abort", "signal " + std::to_string(s));
}
void operator delete(void *p) noexcept { if (R_on && p) raceErase((char *)p, malloc_usable_size(p)); free(p); }
void operator delete(void *p, std::size_t) noexcept { operator delete(p); }
int main(int argc, char **argv) {
  // usage: bin OUTDIR DEADLINE TOKENS [harness...]
  g_out = argv[1]; double secs = atof(argv[2]); int tokens = atoi(argv[3]); g_verbose = getenv("SYMX_VERBOSE"); if (getenv("SYMX_BRANCH")) g_branch_s = atof(getenv("SYMX_BRANCH")); if (getenv("SYMX_RLIMIT")) g_rlimit = atol(getenv("SYMX_RLIMIT")); if (getenv("SYMX_HELPER")) g_helper_s = atof(getenv("SYMX_HELPER"));
  S->tokens = tokens; S->deadline = now() + secs; prctl(PR_SET_CHILD_SUBREAPER, 1);
  stack_t st{}; st.ss_size = 1 << 20; st.ss_sp = malloc(st.ss_size); sigaltstack(&st, nullptr);
  struct sigaction sa{}; sa.sa_handler = onSig; sa.sa_flags = SA_ONSTACK | SA_NODEFER; for (int s : {SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGALRM}) sigaction(s, &sa, nullptr);
  std::set_terminate(onTerm);
  double t0 = now(); size_t nh = g_reg ? g_reg->size() : 0; std::map<pid_t, int> roots; 
  for (size_t i = 0; i < nh; i++) {
    bool want = argc <= 4; for (int k = 4; k < argc; k++) if (!strcmp(argv[k], (*g_reg)[i].first)) want = true; if (!want) continue;
    while (true) { int t = S->tokens; if (t > 0 && S->tokens.compare_exchange_strong(t, t - 1)) break; int stt; waitpid(-1, &stt, WNOHANG); usleep(2000); if (now() > S->deadline) break; }
    pid_t p = fork();
    if (p == 0) {
      g_h = i; g_has_token = true; Z = new z3::context; arm();
      try { (*g_reg)[i].second(); } catch (std::exception &e) { onAbort("abort", std::string("uncaught exception: ") + e.what()); } catch (...) { onAbort("abort", "uncaught exception"); }
      finishPath();
    }
  }
  while (true) { int stt; pid_t p = waitpid(-1, &stt, 0); if (p < 0) break; if (WIFSIGNALED(stt)) { S->nincmsg++; fprintf(stderr, "[symx] process died with signal %d\n", WTERMSIG(stt)); } }
  FILE *f = fopen((g_out + "/summary.txt").c_str(), "w");
  fprintf(f, "wall %.3f\nqueries %ld\nsat %ld\nunsat %ld\nunknown %ld\nsolver_s %.3f\nhelper %ld\nslow %ld\nasserts %ld\nnormalised %ld\nmaybe %ld\nicp %ld\ncands %ld\nexprs_max %ld\n", now() - t0, (long)S->queries, (long)S->sat, (long)S->unsat, (long)S->unknown, S->solver_us * 1e-6, (long)S->helper, (long)S->slow, (long)S->asserts, (long)S->syntactic, (long)S->maybe, (long)S->icp, (long)S->cands, (long)S->exprs_max);
  for (size_t i = 0; i < nh; i++) { auto &h = S->h[i]; fprintf(f, "harness %s paths %ld aborted_ok %ld infeasible %ld inconclusive %ld fails %ld forks %ld\n", (*g_reg)[i].first, (long)h.paths, (long)h.aborted_ok, (long)h.infeasible, (long)h.inconcl, (long)h.fails, (long)h.forks); }
  for (long i = 0; i < S->nlabels; i++) { auto &l = S->labels[i]; fprintf(f, "label %s|%s|%ld|%ld|%ld|%ld\n", (*g_reg)[l.harness].first, l.name, (long)l.reached, (long)l.proved, (long)l.violated, (long)l.inconcl); }
  for (long i = 0; i < std::min<long>(200, S->nincmsg); i++) if (S->incmsg[i][0]) fprintf(f, "inc %s\n", S->incmsg[i]);
  for (int i = 0; i < __sx_fn_count; i++) if (S->cov[i]) fprintf(f, "fn %s\n", __sx_fn_names[i]);
  fclose(f); fflush(stdout); fflush(stderr); _exit(0);
}
