// Harness API.  Implemented by rt.cpp (symbolic run, instrumented build) and by
// replay.cpp (native run of the same harness on one concrete assignment).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
double symx_double_(const char *name);           // arbitrary real (or IEEE double in fp mode)
long symx_int_(const char *name, long lo, long hi); // arbitrary integer in [lo, hi]
void symx_assume_(int c);
void symx_assert_(int c, const char *label);
void symx_assert_eq_(double a, double b, double tol, const char *label);
void symx_reach_(const char *label);
void symx_mode_(int exact, int fp);              // exact: inexact concrete FP ops become rationals; fp: IEEE-754 bit-precise
long symx_concretize_(long v);                   // fork over every feasible value
void symx_allow_abort_(int allow);               // abort()/assert() ends the path quietly
int symx_is_symbolic_run_();
double symx_app_(const char *fn, double a, double b);   // uninterpreted function value (b ignored when unused)
void symx_task_(int what, int id);                  // 1: main queued task id, 2: task id starts, 3: it stopped, 4: main joined it, 5/6: tracking off/on
int symx_races_(void);                            // conflicting unordered accesses seen so far on this path
void symx_note_(const char *k, const char *v);
}
namespace symx {
inline double real(const char *n) { return symx_double_(n); }
inline double real(const char *n, double lo, double hi) {
  double v = symx_double_(n); symx_assume_(v >= lo); symx_assume_(v <= hi); return v;
}
inline long integer(const char *n, long lo, long hi) { return symx_int_(n, lo, hi); }
// a structural choice: every value is explored on its own path
inline long choose(const char *n, long lo, long hi) { return symx_concretize_(symx_int_(n, lo, hi)); }
inline void assume(bool c) { symx_assume_(c ? 1 : 0); }
inline void check(bool c, const char *l) { symx_assert_(c ? 1 : 0, l); }
inline void check_eq(double a, double b, const char *l, double tol = 1e-6) { symx_assert_eq_(a, b, tol, l); }
inline void reach(const char *l) { symx_reach_(l); }
inline void no_race(const char *l) { symx_assert_(symx_races_() == 0, l); }
inline void exact() { symx_mode_(1, 0); }
inline void ieee() { symx_mode_(0, 1); }
struct Reg { Reg(const char *n, void (*f)()); };
template <class A, class B> void check_mat(const A &a, const B &b, const char *l, double tol = 1e-6) {
  check(a.rows() == b.rows() && a.cols() == b.cols(), l);
  if (!(a.rows() == b.rows() && a.cols() == b.cols())) return;
  for (long i = 0; i < (long)a.rows(); i++)
    for (long j = 0; j < (long)a.cols(); j++) check_eq(a(i, j), b(i, j), l, tol);
}
}
#define HARNESS(name) static void name(); static symx::Reg reg_##name(#name, &name); static void name()
