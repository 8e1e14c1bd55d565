// Native side of the harness interface, for replaying solver models against the real code.
#include "sx.hpp"
#include <dlfcn.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <string>
#include <typeinfo>
#include <vector>
#include <csignal>
#include <unistd.h>
#include <cxxabi.h>
static std::vector<double> in; static size_t pos = 0; static bool rnd = false; static unsigned long long st; static int fails = 0; static FILE* rec = nullptr;
static double u() { st = st*6364136223846793005ull + 1442695040888963407ull; unsigned long long x = st >> 11; return x/9007199254740992.0; }
extern "C" {
double sx_real(const char* n, double lo, double hi)
{
  double v;
  if (!rnd) v = pos < in.size() ? in[pos] : .5*(lo + hi);
  else {
    if (!std::isfinite(lo)) lo = -10; if (!std::isfinite(hi)) hi = 10;
    double t = u(); int k = int(u()*12);
    v = k == 0 ? lo : k == 1 ? hi : k == 2 ? .5*(lo + hi) : lo + (hi - lo)*t;
  }
  if (!(v >= lo - 1e-9*(1 + std::abs(lo)) && v <= hi + 1e-9*(1 + std::abs(hi)))) { printf("SX-ASSUME\n"); fflush(stdout); _exit(fails ? 42 : 77); } // not an instance
  ++pos; if (rec) fprintf(rec, "%s %.17g\n", n, v);
  return v;
}
int sx_int(const char* n, int lo, int hi) { int v = lo; if (!rnd) { if (pos < in.size()) v = int(in[pos]); if (v < lo || v > hi) { printf("SX-ASSUME\n"); fflush(stdout); _exit(fails ? 42 : 77); } } else v = lo + int(u()*(double(hi) - lo + 1)); ++pos; if (rec) fprintf(rec, "%s %d\n", n, v); return v; }
unsigned char sx_byte(const char* n) { int v = 0; if (!rnd) { if (pos < in.size()) v = int(in[pos]); } else v = int(u()*256); ++pos; if (rec) fprintf(rec, "%s %d\n", n, v); return v; }
void sx_assume(int c) { if (!c) { printf("SX-ASSUME\n"); fflush(stdout); _exit(fails ? 42 : 77); } }
void sx_assert(int c, const char* m) { if (!c) { ++fails; if (fails < 20) printf("SX-FAIL %s\n", m); } }
void sx_near(double a, double b, double tol, const char* m) { if (!(std::abs(a - b) <= tol)) { ++fails; if (fails < 20) printf("SX-FAIL %s (%.17g vs %.17g, tolerance %g)\n", m, a, b, tol); } }
void sx_reach(const char* t) { printf("SX-REACH %s\n", t); }
void sx_note(const char*) {}
int sx_concrete(int x) { return x; }
int sx_symbolic() { return 0; }
void sx_config(const char*, int) {}
void sx_missing(const char* n) { printf("SX-MISSING %s\n", n); fflush(stdout); _exit(78); }
void sx_show(const char* n, double v) { printf("SX-SHOW %s = %.17g\n", n, v); }
}
static void on_sig(int s) { printf("SX-FAIL signal %d\n", s); fflush(stdout); _exit(42); }
static void on_term()
{
  const char* n = "?"; char* d = nullptr;
  if (auto* t = abi::__cxa_current_exception_type()) { int st; d = abi::__cxa_demangle(t->name(), nullptr, nullptr, &st); n = d ? d : t->name(); }
  std::string what;
  try { if (auto e = std::current_exception()) std::rethrow_exception(e); } catch (std::exception& e) { what = e.what(); } catch (...) {}
  printf("SX-FAIL terminate, exception %s %s\n", n, what.c_str()); fflush(stdout); _exit(42);
}
int main(int argc, char** argv)
{
  // argv: entry inputs-file | entry --random seed [record-file]
  if (std::string(argv[2]) == "--random") { rnd = true; st = strtoull(argv[3], nullptr, 10)*2654435761ull + 12345; for (int i = 0; i < 10; ++i) u(); if (argc > 4) rec = fopen(argv[4], "w"); }
  else { FILE* f = fopen(argv[2], "r"); double v; char nm[512]; while (f && fscanf(f, "%500s %lf", nm, &v) == 2) in.push_back(v); if (f) fclose(f); }
  for (int s : {SIGSEGV, SIGFPE, SIGABRT, SIGILL, SIGBUS}) signal(s, on_sig);
  std::set_terminate(on_term);
  alarm(60); signal(SIGALRM, on_sig);
  void (*f)() = (void (*)()) dlsym(RTLD_DEFAULT, argv[1]);
  if (!f) { printf("no entry\n"); return 3; }
  f();
  if (rec) fclose(rec);
  printf(fails ? "SX-DONE fail\n" : "SX-DONE ok\n"); fflush(stdout);
  _exit(fails ? 42 : 0);
}
