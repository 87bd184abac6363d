// Native replay of a harness on one assignment (no instrumentation, no solver).
// exit 0: every check held; 1: a check failed / aborted; 3: assignment violates an assumption
#include "symx.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <string>
#include <vector>
#include <signal.h>
#include <unistd.h>
static std::vector<std::pair<const char *, void (*)()>> *g_reg;
static std::map<std::string, std::string> vals; static std::map<std::string, int> cnt; static bool failed = false, allow_abort = false;
namespace symx { Reg::Reg(const char *n, void (*f)()) { if (!g_reg) g_reg = new std::vector<std::pair<const char *, void (*)()>>(); g_reg->push_back({n, f}); } }
static std::string uniq(const char *n) { int k = cnt[n]++; return k ? std::string(n) + "#" + std::to_string(k) : std::string(n); }
static void fail(const char *l, const std::string &m) { printf("REPLAY-FAIL %s: %s\n", l, m.c_str()); fflush(stdout); failed = true; }
extern "C" {
double symx_double_(const char *n) { auto it = vals.find(uniq(n)); if (it == vals.end()) return 0.5; return strtod(it->second.c_str(), nullptr); }
long symx_int_(const char *n, long lo, long hi) { std::string u = uniq(n); if (lo == hi) return lo; auto it = vals.find(u); if (it == vals.end()) return lo; long v = strtol(it->second.c_str(), nullptr, 10); return v < lo ? lo : v > hi ? hi : v; }
long symx_concretize_(long v) { return v; }
void symx_assume_(int c) { if (!c) { printf("REPLAY-ASSUME\n"); fflush(stdout); _exit(failed ? 1 : 3); } }
void symx_assert_(int c, const char *l) { if (!c) fail(l, "condition false"); }
void symx_assert_eq_(double a, double b, double tol, const char *l) {
  bool ok = (std::isnan(a) && std::isnan(b)) || a == b || std::fabs(a - b) <= 3 * tol * (1 + std::fmax(std::fabs(a), std::fabs(b)));
  if (!ok) { char m[128]; snprintf(m, 128, "%.17g vs %.17g", a, b); fail(l, m); }
}
void symx_reach_(const char *) {}
void symx_mode_(int, int) {}
void symx_allow_abort_(int a) { allow_abort = a; }
int symx_is_symbolic_run_() { return 0; }
double symx_app_(const char *fn, double a, double) { // some fixed smooth function per name
  unsigned h = 7; for (const char *p = fn; *p; p++) h = h * 31 + *p; return std::sin(a * (1 + h % 3) + h % 7) + 0.25 * a;
}
void symx_note_(const char *, const char *) {}
void symx_task_(int, int) {}
int symx_races_(void) { return 0; } // the sanitiser build decides
}
static void onSig(int s) { if (allow_abort) _exit(failed ? 1 : 0); char m[64]; int n = snprintf(m, 64, "REPLAY-FAIL no-abort: signal %d\n", s); if (write(1, m, n)) {} _exit(1); }
static void onTerm() { if (allow_abort) _exit(failed ? 1 : 0); std::string m = "uncaught exception"; try { if (std::current_exception()) std::rethrow_exception(std::current_exception()); } catch (std::exception &e) { m += std::string(": ") + e.what(); } catch (...) {} fail("no-abort", m); _exit(1); }
int main(int argc, char **argv) {
  std::string h; char line[4096]; FILE *f = fopen(argv[1], "r"); if (!f) return 2;
  while (fgets(line, sizeof line, f)) { char a[256], b[8], c[512]; if (sscanf(line, "harness %255s", a) == 1) h = a; else if (sscanf(line, "var %255s %7s %511s", a, b, c) == 3) vals[a] = c; }
  fclose(f);
  for (int s : {SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGABRT}) signal(s, onSig);
  std::set_terminate(onTerm); alarm(60);
  for (auto &r : *g_reg) if (h == r.first) { r.second(); printf(failed ? "REPLAY violated\n" : "REPLAY ok\n"); fflush(stdout); _exit(failed ? 1 : 0); }
  return 2;
}
