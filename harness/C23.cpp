// @bounds: degrees 0 to 9 (12 thorough), up to 3 locations, every location symbolic in [-1,1]; degrees 10 to 48 at seven locations of which one is symbolic: the recurrence, agreement of single polynomials with the basis, and the values at the ends and at fixed angles
// @assume: none
#include <albatross/Core>
#include <albatross/src/polynomial/chebyshev.hpp>
#include "common.hpp"
using namespace albatross; using namespace hx;
using Arr = Eigen::ArrayXd;
#ifdef SYMX_THOROUGH
static const int N = 12;
#else
static const int N = 9;
#endif
static Arr locs(int n) { Arr x(n); for (int i = 0; i < n; i++) x[i] = rl(nm("x", i), -1, 1); return x; }
static double choose_(int n, int k) { double r = 1; for (int i = 0; i < k; i++) r = r * (n - i) / (i + 1); return r; }
static double power(double x, int k) { double r = 1; while (k-- > 0) r = r * x; return r; }
// explicit sums over powers of x and (x^2 - 1)
static double T(int n, double x) { double s = 0; for (int k = 0; 2 * k <= n; k++) s += choose_(n, 2 * k) * power(x * x - 1, k) * power(x, n - 2 * k); return s; }
static double U(int n, double x) { double s = 0; for (int k = 0; 2 * k <= n; k++) s += choose_(n + 1, 2 * k + 1) * power(x * x - 1, k) * power(x, n - 2 * k); return s; }
HARNESS(first_kind) { int n = symx::choose("n", 0, N), m = symx::choose("m", 0, 3); Arr x = locs(m), t = chebyshev_t(n, x); symx::check(t.size() == m, "one value per location"); for (int i = 0; i < m; i++) symx::check_eq(t[i], T(n, x[i]), "polynomial of the first kind"); }
HARNESS(second_kind) { int n = symx::choose("n", 0, N), m = symx::choose("m", 0, 3); Arr x = locs(m), u = chebyshev_u(n, x); symx::check(u.size() == m, "one value per location"); for (int i = 0; i < m; i++) symx::check_eq(u[i], U(n, x[i]), "polynomial of the second kind"); }
HARNESS(basis) { int n = symx::choose("n", 0, N), m = symx::choose("m", 0, 2); Arr x = locs(m); Eigen::ArrayXXd p = chebyshev_t_phi(n, x), q = chebyshev_u_phi(n, x); symx::check(p.rows() == m && p.cols() == n + 1, "size of the basis"); symx::check(q.rows() == m && q.cols() == n + 1, "size of the second basis"); for (int k = 0; k <= n; k++) for (int i = 0; i < m; i++) { symx::check_eq(p(i, k), T(k, x[i]), "column of the basis"); symx::check_eq(q(i, k), U(k, x[i]), "column of the second basis"); } }
HARNESS(identities) { int n = symx::choose("n", 1, 5); Arr x = locs(1), t = chebyshev_t(n, x), u = chebyshev_u(n - 1, x); symx::check_eq(t[0] * t[0] - (x[0] * x[0] - 1) * u[0] * u[0], 1., "Pell's equation"); Arr two = chebyshev_t(2, t); symx::check_eq(two[0], chebyshev_t(2 * n, x)[0], "composition doubles the degree"); Arr ends(3); ends << 1, -1, 0; Arr e = chebyshev_t(n, ends); symx::check_eq(e[0], 1, "one at one"); symx::check_eq(e[1], n % 2 ? -1. : 1., "sign at minus one"); Arr f = chebyshev_u(n, ends); symx::check_eq(f[0], n + 1., "degree plus one at one"); }
HARNESS(bounded) { int n = symx::choose("n", 0, 4); Arr x = locs(1), t = chebyshev_t(n, x); symx::check(t[0] <= 1.000001 && t[0] >= -1.000001, "between minus one and one"); }
HARNESS(degree_refused) { int n = symx::choose("n", -2, 0), w = symx::choose("w", 0, 3); symx::check(true, "reached"); if (n < 0) symx_allow_abort_(1); Arr x = locs(1); if (w == 0) chebyshev_t(n, x); else if (w == 1) chebyshev_u(n, x); else if (w == 2) chebyshev_t_phi(n, x); else chebyshev_u_phi(n, x); symx::check(n >= 0, "negative degrees are refused"); }
// large degrees: the recurrence everywhere, closed forms at the ends of the interval and at fixed angles
HARNESS(high_degrees) {
  int n = symx::choose("n", 10, 48), w = symx::choose("second", 0, 1); Arr x(7); x << 1, -1, 0, 0.5, -0.5, 0.28, rl("x", -1, 1); auto one = [&](int k) { return w ? chebyshev_u(k, x) : chebyshev_t(k, x); };
  Arr a = one(n), b = one(n - 1), c = one(n - 2); Eigen::ArrayXXd p = w ? chebyshev_u_phi(n, x) : chebyshev_t_phi(n, x); symx::check(a.size() == 7 && p.rows() == 7 && p.cols() == n + 1, "sizes of large degrees");
  for (int i = 0; i < 7; i++) { symx::check_eq(a[i], 2 * x[i] * b[i] - c[i], "recurrence of large degrees"); symx::check_eq(p(i, n), a[i], "last column of the basis"); symx::check_eq(p(i, n - 1), b[i], "column before the last"); }
  symx::check_eq(a[0], w ? n + 1. : 1., "value at one, large degrees"); symx::check_eq(a[1], (w ? n + 1. : 1.) * (n % 2 ? -1 : 1), "value at minus one, large degrees"); symx::check_eq(a[2], n % 2 ? 0. : n % 4 ? -1. : 1., "value at zero, large degrees");
  static const double ct[6] = {1, 0.5, -0.5, -1, -0.5, 0.5}, cu[6] = {1, 1, 0, -1, -1, 0}; symx::check_eq(a[3], w ? cu[n % 6] : ct[n % 6], "value at sixty degrees"); symx::check_eq(a[4], (w ? cu[n % 6] : ct[n % 6]) * (n % 2 ? -1 : 1), "value at a hundred and twenty degrees");
}
