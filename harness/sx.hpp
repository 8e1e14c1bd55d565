// Harness interface. Under the symbolic executor these are intercepted; in the native
// build (replay) they read the inputs the solver produced.
#pragma once
extern "C" {
double sx_real(const char* name, double lo, double hi); // arbitrary real in [lo, hi]
int sx_int(const char* name, int lo, int hi);           // arbitrary integer in [lo, hi]
unsigned char sx_byte(const char* name);                // arbitrary byte
void sx_assume(int cond);
void sx_assert(int cond, const char* msg);
void sx_near(double a, double b, double tol, const char* msg); // |a - b| <= tol
void sx_reach(const char* tag);                          // reachability witness
void sx_note(const char* tag);
int sx_concrete(int x);                                  // split into one path per value
int sx_symbolic();                                       // 1 under the symbolic executor
void sx_config(const char* key, int val);
void sx_show(const char* name, double val);
}
#define SX_ENTRY extern "C" __attribute__((used, noinline)) void
