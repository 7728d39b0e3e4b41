// Harness API.  Under the symbolic executor these are built-ins; in a native
// replay build they are provided by replay.cpp, which reads recorded values.
#pragma once
extern "C" {
double sym_double(const char* name, int index, double lo, double hi); // any real in [lo,hi]
int sym_choice(const char* name, int index, int n);                   // any of 0..n-1
void sym_assume(bool);
void sym_check(bool, const char* label);
void sym_near(double x, double y, double tol, const char* label);     // check |x-y| <= tol
void sym_cover(const char* label);
int sym_param(const char* name, int dflt);
void sym_expect_exit(int allowed);                                    // process exit is (not) acceptable from here on
bool sym_and(bool, bool); bool sym_or(bool, bool); bool sym_not(bool);
bool sym_lt(double, double); bool sym_le(double, double); bool sym_eq(double, double);
bool sym_isfinite(double);
bool sym_fork(bool);           // case split
int sym_symbolic();            // 1 under the symbolic executor, 0 in a replay
void sym_print(const char*, double);
void sym_main();
}
