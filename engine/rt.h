// Shared declarations: symbolic values, path condition, exploration.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <gmpxx.h>
typedef uint64_t u64; typedef uint32_t u32; typedef int64_t i64; typedef int32_t i32; typedef uint8_t u8;
typedef unsigned __int128 u128;

// ---- boxed values ------------------------------------------------------------
// Symbolic double: 0x7FF7C0DE<<32 | id.  Symbolic i1: 0x7FF7B001<<32 | id.
inline bool isBox(u64 v) { return (v >> 48) == 0x7FF7; }
inline bool isSymD(u64 v) { return (v >> 32) == 0x7FF7C0DEu; }
inline bool isSymB(u64 v) { return (v >> 32) == 0x7FF7B001u; }
inline u64 boxD(u32 id) { return (0x7FF7C0DEull << 32) | id; }
inline u64 boxB(u32 id) { return (0x7FF7B001ull << 32) | id; }
inline u32 boxId(u64 v) { return (u32)v; }
inline double asD(u64 v) { double d; __builtin_memcpy(&d, &v, 8); return d; }
inline u64 asU(double d) { u64 v; __builtin_memcpy(&v, &d, 8); return v; }

// ---- path end ----------------------------------------------------------------
enum class End { Ok, Infeasible, Violation, Limit, Unsupported, Exit };
struct PathEnd { End kind; std::string msg; };

// ---- symbolic double operations (either operand may be concrete) ----------------
u64 dAdd(u64 a, u64 b); u64 dSub(u64 a, u64 b); u64 dMul(u64 a, u64 b); u64 dDiv(u64 a, u64 b);
u64 dNeg(u64 a); u64 dAbs(u64 a); u64 dSqrt(u64 a);
u64 dNearest(u64 a); u64 dRound32(u64 a); // to single precision
u64 dFloor(u64 a, int how);            // 0 floor 1 ceil 2 trunc 3 round(half away); concretises
i64 dToInt(u64 a);                     // C truncation; concretises
u64 dFun(const char* name, u64 a);     // uninterpreted/transcendental function of a symbolic
// pred: 0 EQ 1 NE 2 LT 3 LE 4 GT 5 GE 6 ORD 7 UNO ; unordered: complement handled by caller flag
u64 dCmp(int pred, bool unordered, u64 a, u64 b);
// ---- booleans ------------------------------------------------------------------
u64 bAnd(u64 a, u64 b); u64 bOr(u64 a, u64 b); u64 bNot(u64 a); u64 bXor(u64 a, u64 b);
bool decide(u64 b);                    // forks when both outcomes are feasible
// ---- harness API ---------------------------------------------------------------
u64 symInput(const std::string& name, double lo, double hi);  // fresh symbolic double
double magnitude(u64 x); // bound on |x|
u64 symRounded(u64 x, double tol);     // fresh r with |r-x|<=tol (text output of x)
u64 symChoice(const std::string& name, i64 n);
void symAssume(u64 b);
void symCheck(u64 b, const std::string& label, u64 stronger);
void symConfirm(u64 x, u64 y, const std::string& label);
void symCover(const std::string& label);
void reportEvent(const std::string& kind, const std::string& label, bool fatal); // memory errors etc.
std::string showD(u64 v);

// ---- exploration ---------------------------------------------------------------
struct Decision { u8 kind; u8 val; u8 pad[6]; i64 v; }; // kind: 0 branch 1 value/choice 2 assume
typedef std::vector<Decision> Prefix;
struct Candidate {
    std::string kind, label, where;
    std::vector<std::pair<std::string, std::string>> values; // name -> hexfloat or integer
};
struct Stats {
    u64 paths = 0, okPaths = 0, infeasible = 0, exits = 0, limits = 0, unsupported = 0, violPaths = 0;
    u64 instrs = 0, maxInstr = 0, decisions = 0, forks = 0;
    u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, icp = 0, quick = 0;
    u64 checks = 0, checksSolver = 0, checksSyntactic = 0, checksUndecided = 0, pending = 0, maxDepth = 0;
    double solverTime = 0;
};
extern Stats st;
extern bool fpMode;
extern unsigned qTimeout; // ms
extern std::map<std::string, u64> labelCount, coverCount, eventCount, undecidedCount;
extern std::vector<Candidate> candidates; // new since last flush
extern int maxCandPerLabel;

void rtBeginPath(const Prefix& p);     // resets all expression tables
void rtEndPath();
struct Pending { Prefix prefix; };
extern std::vector<Pending> pendingStack; // alternatives found by this worker (DFS)
extern std::string curWhere;           // location of the instruction being executed (lazily filled)
std::string currentLocation();         // provided by interp
