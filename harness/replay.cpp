// Native implementation of the harness API: reads recorded input values.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <string>
#include <fstream>
#include <unistd.h>
static std::map<std::string, std::string> vals; static bool loaded = false; static int allowExit = 0, failed = 0;
static void load() { if (loaded) return; loaded = true; const char* f = getenv("SYM_VALUES"); if (!f) return; std::ifstream in(f); std::string l; while (std::getline(in, l)) { size_t p = l.rfind(' '); if (l[0] == '#' || p == std::string::npos) continue; vals[l.substr(0, p)] = l.substr(p + 1); } }
static std::string key(const char* n, int i) { std::string s = n; if (i >= 0) s += std::to_string(i); return s; }
extern "C" {
double sym_double(const char* n, int i, double lo, double hi) { load(); auto it = vals.find(key(n, i)); if (it == vals.end()) return (lo + hi) / 2; return strtod(it->second.c_str(), nullptr); }
int sym_choice(const char* n, int i, int) { load(); auto it = vals.find(key(n, i)); if (it == vals.end()) return 0; return atoi(it->second.c_str()); }
static void done(int code) { fflush(stdout); fflush(stderr); _exit(code); }
void sym_assume(bool b) { if (!b) { printf("SYM-ASSUME-FALSE\n"); done(failed ? 10 : 20); } }
void sym_check(bool b, const char* l) { if (!b) { printf("SYM-FAIL %s\n", l); fflush(stdout); failed++; if (failed > 20) done(10); } }
void sym_near(double x, double y, double tol, const char* l) { if (!(std::fabs(x - y) <= tol)) { printf("SYM-FAIL %s: %.17g vs %.17g\n", l, x, y); fflush(stdout); failed++; if (failed > 20) done(10); } }
void sym_cover(const char*) {}
int sym_param(const char* n, int d) { load(); std::string k = std::string("@") + n; auto it = vals.find(k); return it == vals.end() ? d : atoi(it->second.c_str()); }
void sym_expect_exit(int a) { allowExit = a; }
bool sym_and(bool a, bool b) { return a && b; } bool sym_or(bool a, bool b) { return a || b; } bool sym_not(bool a) { return !a; }
bool sym_lt(double a, double b) { return a < b; } bool sym_le(double a, double b) { return a <= b; } bool sym_eq(double a, double b) { return a == b; }
bool sym_isfinite(double a) { return std::isfinite(a); }
bool sym_fork(bool b) { return b; }
int sym_symbolic() { return 0; }
double sym_fun(const char* n, double x) { return x; }
void sym_print(const char* n, double v) { printf("[sym] %s = %.17g\n", n, v); }
void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int c) __attribute__((noreturn));
void __wrap_exit(int c) { fflush(stderr); if (!allowExit) { printf("SYM-EXIT status %d\n", c); done(11); } printf("SYM-EXIT-OK\n"); done(failed ? 10 : 0); abort(); }
}
int main() { setvbuf(stdout, nullptr, _IOLBF, 4096); sym_main(); printf("SYM-END\n"); done(failed ? 10 : 0); }
