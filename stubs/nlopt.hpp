// Stand-in for the nlopt optimiser: an arbitrary one.  It evaluates the
// objective at points of its choice inside the bounds it was given (the start
// point first) and returns the best of them.
#pragma once
#include <cmath>
#include <stdexcept>
#include <string>
#include <vector>
#ifdef SYMX
#include "symx.h"
#endif
namespace nlopt {
enum algorithm { GN_DIRECT = 0, GN_DIRECT_L, GN_DIRECT_L_RAND, LN_PRAXIS = 12, LD_LBFGS = 11, GN_CRS2_LM = 19, LD_MMA = 24, LN_COBYLA, LN_NEWUOA, LN_NEWUOA_BOUND, LN_NELDERMEAD, LN_SBPLX, LN_BOBYQA = 34, GN_ISRES, LD_SLSQP = 40 };
enum result { FAILURE = -1, INVALID_ARGS = -2, OUT_OF_MEMORY = -3, ROUNDOFF_LIMITED = -4, FORCED_STOP = -5, SUCCESS = 1, STOPVAL_REACHED, FTOL_REACHED, XTOL_REACHED, MAXEVAL_REACHED, MAXTIME_REACHED };
typedef double (*vfunc)(const std::vector<double> &x, std::vector<double> &grad, void *data);
struct Settings { int steps = 1; };
inline Settings &settings() { static Settings s; return s; }
class opt {
  algorithm a_ = LN_SBPLX; unsigned n_ = 0; std::vector<double> lo_, hi_; vfunc f_ = nullptr; void *data_ = nullptr; double minf_ = 0; int maxeval_ = 0;
public:
  opt() {}
  opt(algorithm a, unsigned n) : a_(a), n_(n), lo_(n, -HUGE_VAL), hi_(n, HUGE_VAL) {}
  unsigned get_dimension() const { return n_; }
  algorithm get_algorithm() const { return a_; }
  void set_min_objective(vfunc f, void *d) { f_ = f; data_ = d; }
  void set_max_objective(vfunc f, void *d) { f_ = f; data_ = d; }
  void set_lower_bounds(const std::vector<double> &v) { if (v.size() != n_) throw std::invalid_argument("bounds"); lo_ = v; }
  void set_upper_bounds(const std::vector<double> &v) { if (v.size() != n_) throw std::invalid_argument("bounds"); hi_ = v; }
  std::vector<double> get_lower_bounds() const { return lo_; }
  std::vector<double> get_upper_bounds() const { return hi_; }
  void set_ftol_abs(double) {} void set_ftol_rel(double) {} void set_xtol_abs(double) {} void set_xtol_abs(const std::vector<double> &) {} void set_xtol_rel(double) {} void set_stopval(double) {} void set_maxtime(double) {} void set_initial_step(double) {} void set_initial_step(const std::vector<double> &) {} void set_population(unsigned) {}
  void set_maxeval(int n) { maxeval_ = n; } int get_maxeval() const { return maxeval_; }
  result optimize(std::vector<double> &x, double &minf) {
    if (x.size() != n_) throw std::invalid_argument("dimension");
    std::vector<double> at(x), best(x), grad(a_ == LD_SLSQP || a_ == LD_LBFGS || a_ == LD_MMA ? n_ : 0);
    for (int k = 0; k < settings().steps; k++) {
#ifdef SYMX
      if (k) for (unsigned i = 0; i < n_; i++) { double v = symx::real(("opt" + std::to_string(k) + "_" + std::to_string(i)).c_str(), -20, 20); symx::assume(v >= lo_[i]); symx::assume(v <= hi_[i]); at[i] = v; }
#endif
      double f = f_(at, grad, data_);
      if (k == 0 || f < minf) { minf = f; best = at; }
    }
    x = best; minf_ = minf; return SUCCESS;
  }
  double last_optimum_value() const { return minf_; }
};
}
