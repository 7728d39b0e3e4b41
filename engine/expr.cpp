// Symbolic reals as canonical polynomials, path condition, z3 queries, exploration decisions.
#include "rt.h"
#include <z3++.h>
#include <unordered_map>
#include <algorithm>
#include <set>
#include <cmath>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <functional>
using std::vector; using std::string;

Stats st; bool fpMode = false; unsigned qTimeout = 4000;
std::map<string, u64> labelCount, coverCount, eventCount, undecidedCount;
vector<Candidate> candidates; int maxCandPerLabel = 2;
vector<Pending> pendingStack;
string curWhere;

// ============================================================ hashing
struct H { u64 a, b; bool operator==(const H& o) const { return a == o.a && b == o.b; }
           bool operator<(const H& o) const { return a < o.a || (a == o.a && b < o.b); } };
static u64 mix(u64 x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33; return x; }
static H hs(u64 v) { return {mix(v + 0x9e3779b97f4a7c15ULL), mix(v ^ 0x5851f42d4c957f2dULL)}; }
static H hc(H x, H y) { return {mix(x.a * 3 + y.a + 0x1234567), mix(x.b * 5 + y.b + 0x89abcde)}; }
static H hstr(const string& s) { H h = hs(s.size()); for (char c : s) h = hc(h, hs((u8)c)); return h; }
static H hq(const mpq_class& q) {
    H h = hs(mpz_sgn(q.get_num_mpz_t()) + 7);
    size_t n = mpz_size(q.get_num_mpz_t()); for (size_t i = 0; i < n; i++) h = hc(h, hs(mpz_getlimbn(q.get_num_mpz_t(), i)));
    h = hc(h, hs(0x777)); n = mpz_size(q.get_den_mpz_t()); for (size_t i = 0; i < n; i++) h = hc(h, hs(mpz_getlimbn(q.get_den_mpz_t(), i)));
    return h;
}
struct HH { size_t operator()(const H& h) const { return h.a; } };

// ============================================================ tables (reset per path)
typedef vector<std::pair<u32, u32>> MonoV; // (atom, exp), atom descending
struct Atom { enum K { INPUT, INV, SQRT, ABS, OPQ, FUN } k; u32 arg; string name; mpq_class lo, hi; H h; vector<u32> inputs; vector<u32> deps; u32 w = 1; };
struct Mono { MonoV v; u32 deg; H h; u32 wdeg; };
typedef vector<std::pair<u32, mpq_class>> PolyV; // (mono, coeff) leading first
struct Poly { PolyV t; H h; vector<u32> inputs; bool inputsDone; };
static vector<Atom> A; static vector<Mono> M; static vector<Poly> P;
static std::unordered_map<H, u32, HH> atomIx, monoIx, polyIx;
static std::unordered_map<u64, u64> mmCache; // (m1,m2) -> (isPoly<<32|id)
static std::unordered_map<u64, u32> mulCache;

static bool monoLess(u32 a, u32 b) { // a < b in weighted graded lex order (admissible, so that the reductions terminate)
    if (a == b) return false;
    const Mono &x = M[a], &y = M[b];
    if (x.wdeg != y.wdeg) return x.wdeg < y.wdeg;
    size_t n = std::min(x.v.size(), y.v.size());
    for (size_t i = 0; i < n; i++) {
        if (x.v[i].first != y.v[i].first) return x.v[i].first < y.v[i].first;
        if (x.v[i].second != y.v[i].second) return x.v[i].second < y.v[i].second;
    }
    return x.v.size() < y.v.size();
}
static u32 mkMono(const MonoV& v) {
    if (v.empty()) return 0;
    H h = hs(1); u32 deg = 0;
    for (auto& p : v) { h = hc(h, hc(A[p.first].h, hs(p.second))); deg += p.second; }
    auto it = monoIx.find(h); if (it != monoIx.end()) return it->second;
    u32 wd = 0; for (auto& p : v) wd += p.second * A[p.first].w;
    M.push_back({v, deg, h, wd}); monoIx[h] = M.size() - 1; return M.size() - 1;
}
static u32 mkPoly(PolyV&& t) { // sorted, nonzero
    H h = hs(2);
    for (auto& p : t) h = hc(h, hc(M[p.first].h, hq(p.second)));
    auto it = polyIx.find(h); if (it != polyIx.end()) return it->second;
    P.push_back({std::move(t), h, {}, false}); polyIx[h] = P.size() - 1; return P.size() - 1;
}
static u32 pConst(const mpq_class& q) { PolyV t; if (q != 0) t.push_back({0, q}); return mkPoly(std::move(t)); }
static bool isConst(u32 p) { return P[p].t.empty() || (P[p].t.size() == 1 && P[p].t[0].first == 0); }
static mpq_class constVal(u32 p) { return P[p].t.empty() ? mpq_class(0) : P[p].t[0].second; }
static u32 pAtom(u32 a) { MonoV v{{a, 1}}; PolyV t; t.push_back({mkMono(v), mpq_class(1)}); return mkPoly(std::move(t)); }
static u32 pMono(u32 m, const mpq_class& c) { PolyV t; if (c != 0) t.push_back({m, c}); return mkPoly(std::move(t)); }

static u32 pAddScaled(u32 a, u32 b, const mpq_class& s) {
    PolyV r; const PolyV &x = P[a].t, &y = P[b].t; size_t i = 0, j = 0; r.reserve(x.size() + y.size());
    while (i < x.size() || j < y.size()) {
        if (j == y.size() || (i < x.size() && monoLess(y[j].first, x[i].first))) r.push_back(x[i++]);
        else if (i == x.size() || (x[i].first != y[j].first && monoLess(x[i].first, y[j].first))) { r.push_back({y[j].first, y[j].second * s}); j++; }
        else { mpq_class c = x[i].second + y[j].second * s; if (c != 0) r.push_back({x[i].first, c}); i++; j++; }
    }
    return mkPoly(std::move(r));
}
static u32 pAdd(u32 a, u32 b) { return pAddScaled(a, b, 1); }
static u32 pSub(u32 a, u32 b) { return pAddScaled(a, b, -1); }
static u32 pScale(u32 a, const mpq_class& s) { if (s == 0) return pConst(0); PolyV r = P[a].t; for (auto& x : r) x.second *= s; return mkPoly(std::move(r)); }
static u32 pMul(u32 a, u32 b);
static u32 pPow(u32 a, u32 n) { u32 r = pConst(1); for (u32 i = 0; i < n; i++) r = pMul(r, a); return r; }
// p * D^k for the INV atom of D, k at least its largest exponent in p: removes the atom
static u32 clearInv(u32 p, u32 inv, u32 k) {
    std::map<u32, u32> part; PolyV t = P[p].t; u32 D = A[inv].arg;
    for (auto& x : t) { MonoV v = M[x.first].v, w; u32 e = 0; for (auto& f : v) if (f.first == inv) e = f.second; else w.push_back(f); u32 m = pMono(mkMono(w), x.second); auto it = part.find(e); if (it == part.end()) part[e] = m; else it->second = pAdd(it->second, m); }
    u32 r = pConst(0); for (auto& q : part) r = pAdd(r, pMul(q.second, pPow(D, k - q.first)));
    return r;
}

// multiply monomials with the atom relations applied; result simple mono or poly
static std::pair<bool, u32> monoNormalise(MonoV v) {
    for (size_t i = 0; i < v.size(); i++) {
        Atom::K k = A[v[i].first].k; u32 e = v[i].second;
        if ((k == Atom::SQRT || k == Atom::ABS) && e >= 2) {
            u32 base = A[v[i].first].arg; MonoV w = v;
            if (e % 2) w[i].second = 1; else w.erase(w.begin() + i);
            u32 f = k == Atom::SQRT ? pPow(base, e / 2) : pPow(pMul(base, base), e / 2);
            auto r = monoNormalise(w); u32 rp = r.first ? r.second : pMono(r.second, 1);
            return {true, pMul(rp, f)};
        }
        if (k == Atom::INV) {
            u32 D = A[v[i].first].arg; u32 Lm = P[D].t[0].first; const MonoV L = M[Lm].v;
            bool div = true;
            for (auto& q : L) { bool ok = false; for (auto& z : v) if (z.first == q.first && z.second >= q.second) ok = true; if (!ok) { div = false; break; } }
            if (div) {
                MonoV w; u32 inv = v[i].first;
                for (auto z : v) {
                    u32 ex = z.second; if (z.first == inv) ex -= 1;
                    for (auto& q : L) if (q.first == z.first) ex -= q.second;
                    if (ex) w.push_back({z.first, ex});
                }
                auto r = monoNormalise(w); u32 rp = r.first ? r.second : pMono(r.second, 1);
                u32 rest = pSub(D, pMono(Lm, 1));
                u32 f = pSub(pConst(1), pMul(rest, pAtom(inv)));
                return {true, pMul(rp, f)};
            }
        }
    }
    return {false, mkMono(v)};
}
static std::pair<bool, u32> mulMono(u32 a, u32 b) {
    if (a == 0) return {false, b}; if (b == 0) return {false, a};
    if (a > b) std::swap(a, b);
    u64 key = ((u64)a << 32) | b; auto it = mmCache.find(key);
    if (it != mmCache.end()) return {(it->second >> 32) != 0, (u32)it->second};
    MonoV r; const MonoV x = M[a].v, y = M[b].v; size_t i = 0, j = 0;
    while (i < x.size() || j < y.size()) {
        if (j == y.size() || (i < x.size() && x[i].first > y[j].first)) r.push_back(x[i++]);
        else if (i == x.size() || y[j].first > x[i].first) r.push_back(y[j++]);
        else { r.push_back({x[i].first, x[i].second + y[j].second}); i++; j++; }
    }
    auto res = monoNormalise(r);
    mmCache[key] = ((u64)(res.first ? 1 : 0) << 32) | res.second;
    return res;
}
static u32 mkAtom(Atom::K k, u32 arg, const string& name);
static u32 opaque(u32 p) { return pAtom(mkAtom(Atom::OPQ, p, "")); }
static u32 pMul(u32 a, u32 b) {
    if (isConst(a)) return pScale(b, constVal(a)); if (isConst(b)) return pScale(a, constVal(b));
    if (a > b) std::swap(a, b);
    u64 key = ((u64)a << 32) | b; auto it = mulCache.find(key); if (it != mulCache.end()) return it->second;
    u64 sz = (u64)P[a].t.size() * P[b].t.size();
    u32 a0 = a, b0 = b;
    if (sz > 20000) { if (P[a].t.size() > 60) a = opaque(a); if (P[b].t.size() > 60) b = opaque(b); }
    struct Cmp { bool operator()(u32 x, u32 y) const { return monoLess(y, x); } };
    std::map<u32, mpq_class, Cmp> acc;
    PolyV x = P[a].t, y = P[b].t;
    vector<std::pair<u32, mpq_class>> polys;
    for (auto& s : x) for (auto& t : y) {
        auto m = mulMono(s.first, t.first); mpq_class c = s.second * t.second;
        if (!m.first) acc[m.second] += c; else for (auto& q : P[m.second].t) acc[q.first] += q.second * c;
    }
    PolyV r; for (auto& q : acc) if (q.second != 0) r.push_back({q.first, q.second});
    u32 res = mkPoly(std::move(r)); mulCache[((u64)a0 << 32) | b0] = res; return res;
}

// inputs (atom ids of INPUT) a polynomial depends on, through definitions
static u32 toPoly(u64 v);
static const vector<u32>& inputsOf(u32 p) {
    if (!P[p].inputsDone) {
        std::set<u32> s; for (auto& t : P[p].t) for (auto& q : M[t.first].v) s.insert(A[q.first].inputs.begin(), A[q.first].inputs.end());
        P[p].inputs.assign(s.begin(), s.end()); P[p].inputsDone = true;
    }
    return P[p].inputs;
}
static u32 mkAtom(Atom::K k, u32 arg, const string& name) {
    H h = hc(hs(100 + k), k == Atom::INPUT ? hstr(name) : hc(P[arg].h, hstr(name)));
    auto it = atomIx.find(h); if (it != atomIx.end()) return it->second;
    Atom a; a.k = k; a.arg = arg; a.name = name; a.h = h;
    if (k == Atom::SQRT || k == Atom::ABS) { u32 wd = 0; for (auto& t : P[arg].t) wd = std::max(wd, M[t.first].wdeg); a.w = std::max(1u, k == Atom::SQRT ? (wd + 1) / 2 : wd); }
    A.push_back(a); u32 id = A.size() - 1; atomIx[h] = id;
    if (k == Atom::INPUT) A[id].inputs = {id};
    else if (k == Atom::FUN) { A[id].inputs = inputsOf(arg); vector<u32>& v = A[id].inputs; v.insert(std::lower_bound(v.begin(), v.end(), id), id); }
    else A[id].inputs = inputsOf(arg);
    return id;
}

// ============================================================ facts (path condition)
struct Bnd { bool hasLo = false, hasHi = false, loS = false, hiS = false; mpq_class lo, hi; vector<mpq_class> ne; };
static std::map<u32, Bnd> facts;           // monic poly without constant -> bounds (normalised key)
static vector<u32> extraPC;                // other boolean constraints (ids)
// booleans
struct BoolE { enum K { LIT, AND, OR, FP } k; u32 p; u8 mask; vector<u32> ch; H h; };  // LIT: sign(poly p) in mask (1 neg,2 zero,4 pos)
static vector<BoolE> B; static std::unordered_map<H, u32, HH> boolIx; // ids 0=false 1=true
static u32 mkBool(BoolE&& e) {
    H h = hc(hs(200 + e.k), hs(e.mask));
    if (e.k == BoolE::LIT) h = hc(h, P[e.p].h); else if (e.k == BoolE::FP) h = hc(h, hs(e.p)); else for (u32 c : e.ch) h = hc(h, B[c].h);
    auto it = boolIx.find(h); if (it != boolIx.end()) return it->second;
    e.h = h; B.push_back(std::move(e)); boolIx[h] = B.size() - 1; return B.size() - 1;
}
// split monic p into (q, c): p = q + c with q having no constant term
static std::pair<u32, mpq_class> splitConst(u32 p) {
    if (P[p].t.back().first != 0) return {p, mpq_class(0)};
    PolyV t(P[p].t.begin(), P[p].t.end() - 1); mpq_class c = P[p].t.back().second;
    return {mkPoly(std::move(t)), c};
}
struct Iv { bool nl = true, nh = true; mpq_class lo, hi; bool ls = false, hs = false; }; // nl: no lower bound; ls: strict
static int ivDepth = 0;
static Iv ivPoly(u32 p);
static void ivMeet(Iv& x, const Iv& y) {
    if (!y.nl && (x.nl || y.lo > x.lo || (y.lo == x.lo && y.ls))) { x.nl = false; x.lo = y.lo; x.ls = y.ls; }
    if (!y.nh && (x.nh || y.hi < x.hi || (y.hi == x.hi && y.hs))) { x.nh = false; x.hi = y.hi; x.hs = y.hs; }
}
static Iv ivFact(u32 q) { Iv r; auto it = facts.find(q); if (it != facts.end()) { const Bnd& b = it->second; if (b.hasLo) { r.nl = false; r.lo = b.lo; r.ls = b.loS; } if (b.hasHi) { r.nh = false; r.hi = b.hi; r.hs = b.hiS; } } return r; }
static Iv ivMul(const Iv& a, const Iv& b) {
    // finite or sign-only
    Iv r;
    if (!a.nl && !a.nh && !b.nl && !b.nh) {
        mpq_class c[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi};
        bool s[4] = {a.ls || b.ls, a.ls || b.hs, a.hs || b.ls, a.hs || b.hs};
        // a zero attained non-strictly makes the product non-strict
        auto adj = [&](int i, const mpq_class& x, bool xs, const mpq_class& y, bool ys) { if (c[i] == 0) s[i] = !((x == 0 && !xs) || (y == 0 && !ys)); };
        adj(0, a.lo, a.ls, b.lo, b.ls); adj(1, a.lo, a.ls, b.hi, b.hs); adj(2, a.hi, a.hs, b.lo, b.ls); adj(3, a.hi, a.hs, b.hi, b.hs);
        int mn = 0, mx = 0;
        for (int i = 1; i < 4; i++) { if (c[i] < c[mn] || (c[i] == c[mn] && !s[i])) mn = i; if (c[i] > c[mx] || (c[i] == c[mx] && !s[i])) mx = i; }
        r.nl = r.nh = false; r.lo = c[mn]; r.ls = s[mn]; r.hi = c[mx]; r.hs = s[mx];
        return r;
    }
    auto sg = [](const Iv& x) { if (!x.nl && x.lo >= 0) return x.lo > 0 || x.ls ? 2 : 1; if (!x.nh && x.hi <= 0) return x.hi < 0 || x.hs ? -2 : -1; return 0; };
    int sa = sg(a), sb = sg(b);
    if (sa && sb) {
        bool strict = std::abs(sa) == 2 && std::abs(sb) == 2;
        if ((sa > 0) == (sb > 0)) { r.nl = false; r.lo = 0; r.ls = strict; if (sa > 0 && !a.nl && !b.nl) { r.lo = a.lo * b.lo; if (r.lo > 0) r.ls = a.ls || b.ls; } }
        else { r.nh = false; r.hi = 0; r.hs = strict; }
    }
    return r;
}
static mpq_class sqrtBound(const mpq_class& q, bool up) { // a rational bound of sqrt(q), checked exactly; -1 if none
    double d = q.get_d(); if (!(d >= 0) || d > 1e300 || d < 1e-300) return d == 0 && !up ? 0 : -1;
    double c = std::sqrt(d); if (d < 1e60 && d > 1e-60) c = (float)c; c *= up ? 1 + 1e-6 : 1 - 1e-6; mpq_class r(c);
    return up ? (r * r >= q ? r : mpq_class(-1)) : (r * r <= q ? r : mpq_class(-1));
}
static Iv ivAtom(u32 a) {
    Iv r = ivFact(pAtom(a));
    const Atom& at = A[a];
    if (at.k == Atom::SQRT) { Iv x; x.nl = false; x.lo = 0; if (ivDepth < 6) { Iv d = ivPoly(at.arg); if (!d.nl && (d.lo > 0 || (d.lo == 0 && d.ls))) { x.ls = true; mpq_class b = sqrtBound(d.lo, false); if (b > 0) { x.lo = b; x.ls = false; } } if (!d.nh && d.hi >= 0) { mpq_class b = sqrtBound(d.hi, true); if (b >= 0) { x.nh = false; x.hi = b; } } } ivMeet(r, x); }
    else if (at.k == Atom::ABS) { Iv x; x.nl = false; x.lo = 0; ivMeet(r, x); }
    else if (at.k == Atom::OPQ && ivDepth < 6) ivMeet(r, ivPoly(at.arg));
    else if (at.k == Atom::INV && ivDepth < 6) {
        Iv d = ivPoly(at.arg), x;
        if (!d.nl && (d.lo > 0 || (d.lo == 0 && d.ls))) { x.nl = false; x.lo = 0; x.ls = true; if (!d.nh && d.hi > 0) { x.lo = 1 / d.hi; x.ls = d.hs; } if (d.lo > 0) { x.nh = false; x.hi = 1 / d.lo; x.hs = d.ls; } }
        else if (!d.nh && (d.hi < 0 || (d.hi == 0 && d.hs))) { x.nh = false; x.hi = 0; x.hs = true; if (!d.nl && d.lo < 0) { x.hi = 1 / d.lo; x.hs = d.ls; } if (d.hi < 0) { x.nl = false; x.lo = 1 / d.hi; x.ls = d.hs; } }
        ivMeet(r, x);
    }
    return r;
}
static Iv ivSum(const PolyV& t) {
    Iv r; r.nl = r.nh = false; r.lo = r.hi = 0;
    for (auto& term : t) {
        Iv m; m.nl = m.nh = false; m.lo = m.hi = 1;
        for (auto& f : M[term.first].v) {
            Iv x = ivAtom(f.first);
            u32 e = f.second;
            while (e > 0) {
                if (e >= 2) {
                    Iv s; // square
                    if (!x.nl && !x.nh) {
                        Iv y = ivMul(x, x);
                        if (x.lo < 0 && x.hi > 0) { y.lo = 0; y.ls = false; }
                        else if (y.lo < 0) { y.lo = 0; y.ls = false; }
                        s = y; if (x.lo == 0 ? x.ls : (x.hi == 0 ? x.hs : false)) s.ls = true;
                    } else { s.nl = false; s.lo = 0; if ((!x.nl && (x.lo > 0 || (x.lo == 0 && x.ls))) || (!x.nh && (x.hi < 0 || (x.hi == 0 && x.hs)))) s.ls = true; }
                    m = ivMul(m, s); e -= 2;
                } else { m = ivMul(m, x); e--; }
            }
        }
        const mpq_class& c = term.second; Iv z;
        if (c > 0) { z.nl = m.nl; z.nh = m.nh; if (!m.nl) z.lo = m.lo * c; if (!m.nh) z.hi = m.hi * c; z.ls = m.ls; z.hs = m.hs; }
        else { z.nl = m.nh; z.nh = m.nl; if (!m.nh) z.lo = m.hi * c; if (!m.nl) z.hi = m.lo * c; z.ls = m.hs; z.hs = m.ls; }
        if (z.nl) r.nl = true; if (z.nh) r.nh = true;
        if (!r.nl) { r.lo += z.lo; r.ls |= z.ls; } if (!r.nh) { r.hi += z.hi; r.hs |= z.hs; }
        if (r.nl && r.nh) return r;
    }
    return r;
}
static Iv ivPoly(u32 p) {
    if (isConst(p)) { Iv r; r.nl = r.nh = false; r.lo = r.hi = constVal(p); return r; }
    ivDepth++;
    Iv r;
    if (P[p].t.size() <= 60) r = ivSum(P[p].t);
    mpq_class lc = P[p].t[0].second; u32 mp = lc == 1 ? p : pScale(p, 1 / lc);
    auto sp = splitConst(mp);
    Iv f = ivFact(sp.first);
    if (!f.nl) f.lo += sp.second; if (!f.nh) f.hi += sp.second;
    if (lc < 0) { std::swap(f.nl, f.nh); std::swap(f.lo, f.hi); std::swap(f.ls, f.hs); }
    if (!f.nl) f.lo *= lc; if (!f.nh) f.hi *= lc;
    ivMeet(r, f);
    ivDepth--;
    return r;
}
static u8 uniMask(u32 p);
static std::unordered_map<u32, u8> uniMemo; // per path: ids are reused
static u8 quickMask(u32 p) { // possible signs
    if (isConst(p)) { int s = sgn(constVal(p)); return s < 0 ? 1 : s == 0 ? 2 : 4; }
    Iv r = ivPoly(p); u8 m = 7;
    if (!r.nl) { if (r.lo > 0) m &= 4; else if (r.lo == 0) m &= r.ls ? 4 : 6; }
    if (!r.nh) { if (r.hi < 0) m &= 1; else if (r.hi == 0) m &= r.hs ? 1 : 3; }
    if (m & 2) {
        mpq_class lc = P[p].t[0].second; u32 mp = lc == 1 ? p : pScale(p, 1 / lc);
        auto sp = splitConst(mp); auto it = facts.find(sp.first);
        if (it != facts.end()) for (auto& v : it->second.ne) if (v == -sp.second) m &= 5;
    }
    if (m != 1 && m != 2 && m != 4 && P[p].t.size() >= 2) m &= uniMask(p);
    return m;
}
static int quickBool(u32 b) { // -1 unknown
    if (b < 2) return b;
    const BoolE& e = B[b];
    switch (e.k) {
    case BoolE::LIT: { u8 m = quickMask(e.p); if (!(m & ~e.mask)) return 1; if (!(m & e.mask)) return 0; return -1; }
    case BoolE::AND: { int r = 1; auto ch = e.ch; for (u32 c : ch) { int q = quickBool(c); if (q == 0) return 0; if (q < 0) r = -1; } return r; }
    case BoolE::OR: { int r = 0; auto ch = e.ch; for (u32 c : ch) { int q = quickBool(c); if (q == 1) return 1; if (q < 0) r = -1; } return r; }
    default: return -1;
    }
}
static u32 bLit(u32 p, u8 mask) { // raw literal, normalised to monic
    mask &= 7; if (mask == 7) return 1; if (mask == 0) return 0;
    if (isConst(p)) { int s = sgn(constVal(p)); return (mask & (s < 0 ? 1 : s == 0 ? 2 : 4)) ? 1 : 0; }
    mpq_class lc = P[p].t[0].second;
    if (lc != 1) { p = pScale(p, 1 / lc); if (lc < 0) mask = (mask & 2) | ((mask & 1) << 2) | ((mask & 4) >> 2); }
    BoolE e; e.k = BoolE::LIT; e.p = p; e.mask = mask; return mkBool(std::move(e));
}
static u32 bNary(BoolE::K k, vector<u32> ch) {
    u32 unit = k == BoolE::AND ? 1 : 0, zero = 1 - unit; vector<u32> r;
    for (u32 c : ch) { if (c == unit) continue; if (c == zero) return zero; if (B[c].k == k) r.insert(r.end(), B[c].ch.begin(), B[c].ch.end()); else r.push_back(c); }
    std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end());
    if (r.empty()) return unit; if (r.size() == 1) return r[0];
    BoolE e; e.k = k; e.ch = r; e.mask = 0; e.p = 0; return mkBool(std::move(e));
}
static u32 fpNot(u32 b);
static u32 bNeg(u32 b) {
    if (b < 2) return 1 - b;
    BoolE e = B[b];
    switch (e.k) {
    case BoolE::LIT: return bLit(e.p, ~e.mask & 7);
    case BoolE::AND: case BoolE::OR: { vector<u32> c; for (u32 x : e.ch) c.push_back(bNeg(x)); return bNary(e.k == BoolE::AND ? BoolE::OR : BoolE::AND, c); }
    default: return fpNot(b);
    }
}
static u64 bx(u32 b) { return b < 2 ? b : boxB(b); }
static u32 ub(u64 v) { if (isSymB(v)) return boxId(v); return (v & 1) ? 1 : 0; }
u64 bAnd(u64 a, u64 b) { return bx(bNary(BoolE::AND, {ub(a), ub(b)})); }
u64 bOr(u64 a, u64 b) { return bx(bNary(BoolE::OR, {ub(a), ub(b)})); }
u64 bNot(u64 a) { return bx(bNeg(ub(a))); }
u64 bXor(u64 a, u64 b) { u32 x = ub(a), y = ub(b); return bx(bNary(BoolE::OR, {bNary(BoolE::AND, {x, bNeg(y)}), bNary(BoolE::AND, {bNeg(x), y})})); }

static void ineqPush(u32 q, const mpq_class& c, u8 mask) { // sign(q+c) in mask
    Bnd& b = facts[q]; mpq_class v = -c;
    auto setLo = [&](bool s) { if (!b.hasLo || v > b.lo || (v == b.lo && s && !b.loS)) { b.hasLo = true; b.lo = v; b.loS = s; } };
    auto setHi = [&](bool s) { if (!b.hasHi || v < b.hi || (v == b.hi && s && !b.hiS)) { b.hasHi = true; b.hi = v; b.hiS = s; } };
    switch (mask) {
    case 1: setHi(true); break; case 3: setHi(false); break; case 4: setLo(true); break; case 6: setLo(false); break;
    case 2: setLo(false); setHi(false); break;
    case 5:
        if (b.hasLo && b.lo == v && !b.loS) b.loS = true; else if (b.hasHi && b.hi == v && !b.hiS) b.hiS = true;
        else b.ne.push_back(v);
        break;
    }
    for (size_t i = 0; i < b.ne.size();) { // drop or absorb disequalities
        const mpq_class n = b.ne[i]; bool drop = false;
        if (b.hasLo && n < b.lo) drop = true; else if (b.hasLo && n == b.lo) { b.loS = true; drop = true; }
        if (b.hasHi && n > b.hi) drop = true; else if (b.hasHi && n == b.hi) { b.hiS = true; drop = true; }
        if (drop) b.ne.erase(b.ne.begin() + i); else i++;
    }
}
static void addPC(u32 b) {
    if (b < 2) return;
    BoolE e = B[b];
    if (e.k == BoolE::AND) { for (u32 c : e.ch) addPC(c); return; }
    if (e.k == BoolE::LIT) { auto sp = splitConst(e.p); ineqPush(sp.first, sp.second, e.mask); return; }
    if (e.k == BoolE::OR) { // unit propagation
        vector<u32> left; for (u32 c : e.ch) { int q = quickBool(c); if (q == 1) return; if (q < 0) left.push_back(c); }
        if (left.size() == 1) { addPC(left[0]); return; }
        if (left.size() > 1 && left.size() < e.ch.size()) b = bNary(BoolE::OR, left);
        // same poly in every literal: mask union on a common poly
    }
    extraPC.push_back(b);
}

// ============================================================ models
typedef std::map<u32, mpq_class> Model; // input atom -> value
static Model curModel;
static vector<mpf_class> evalCache; static vector<u8> evalState; static Model* evalModel;
static mpf_class evalAtom(u32 a);
static mpf_class evalPoly(u32 p) {
    mpf_class r(0, 192);
    for (auto& t : P[p].t) { mpf_class m(t.second, 192); for (auto& f : M[t.first].v) { mpf_class x = evalAtom(f.first); for (u32 i = 0; i < f.second; i++) m *= x; } r += m; }
    return r;
}
static mpf_class evalAtom(u32 a) {
    if (a < evalState.size() && evalState[a]) return evalCache[a];
    mpf_class r(0, 192); const Atom at = A[a];
    switch (at.k) {
    case Atom::INPUT: case Atom::FUN: { auto it = evalModel->find(a); if (it != evalModel->end()) r = it->second; else { mpq_class z = at.k == Atom::INPUT ? mpq_class((at.lo + at.hi) / 2) : mpq_class(0); r = z; } break; }
    case Atom::INV: { mpf_class d = evalPoly(at.arg); if (d != 0) r = 1 / d; break; }
    case Atom::SQRT: { mpf_class d = evalPoly(at.arg); if (d > 0) r = sqrt(d); break; }
    case Atom::ABS: r = abs(evalPoly(at.arg)); break;
    case Atom::OPQ: r = evalPoly(at.arg); break;
    }
    if (evalState.size() <= a) { evalState.resize(A.size(), 0); evalCache.resize(A.size(), mpf_class(0, 192)); }
    evalState[a] = 1; evalCache[a] = r; return r;
}
static void evalReset(Model* m) { evalModel = m; std::fill(evalState.begin(), evalState.end(), 0); }
static int evalBool(u32 b) { // 0/1, -1 unknown
    if (b < 2) return b; const BoolE e = B[b];
    switch (e.k) {
    case BoolE::LIT: {
        mpf_class v = evalPoly(e.p); mpf_class eps(1e-40, 192); int s = v > eps ? 4 : v < -eps ? 1 : 2;
        return (e.mask & s) ? 1 : 0; }
    case BoolE::AND: { int r = 1; for (u32 c : e.ch) { int q = evalBool(c); if (q == 0) return 0; if (q < 0) r = -1; } return r; }
    case BoolE::OR: { int r = 0; for (u32 c : e.ch) { int q = evalBool(c); if (q == 1) return 1; if (q < 0) r = -1; } return r; }
    default: return -1;
    }
}
static bool modelValid = true;

// ============================================================ z3
static bool zBroken = false; // reset the context before its next use
static z3::context* Z = nullptr; static u64 zUses = 0;
static std::unordered_map<u32, unsigned> zAtomIx; static vector<z3::expr> zAtoms;
static void zReset(bool hard) {
    if (hard || !Z || zUses > 3000) {
        zAtoms.clear(); zAtomIx.clear(); 
        extern void fpClear(); fpClear();
        delete Z; Z = new z3::context(); zUses = 0;
    } else { zAtoms.clear(); zAtomIx.clear(); }
}
static z3::expr zq(const mpq_class& q) { return Z->real_val(q.get_str().c_str()); }
static z3::expr zAtom(u32 a) {
    auto it = zAtomIx.find(a); if (it != zAtomIx.end()) return zAtoms[it->second];
    string n = A[a].k == Atom::INPUT ? "i_" + A[a].name : "a_" + std::to_string(a);
    z3::expr e = Z->real_const(n.c_str()); zAtomIx[a] = zAtoms.size(); zAtoms.push_back(e); return e;
}
static z3::expr zMk(bool mul, vector<Z3_ast>& as) {
    Z3_ast r = mul ? Z3_mk_mul(*Z, as.size(), as.data()) : Z3_mk_add(*Z, as.size(), as.data());
    if (!r) { fprintf(stderr, "z3 mk %d n=%zu: %s\n", mul, as.size(), Z3_get_error_msg(*Z, Z3_get_error_code(*Z))); throw z3::exception("null term"); }
    return z3::expr(*Z, r);
}
static z3::expr zPoly(u32 p) {
    if (P[p].t.empty()) return Z->real_val(0);
    z3::expr_vector sum(*Z);
    for (auto& t : P[p].t) {
        z3::expr_vector f(*Z);
        if (t.second != 1 || t.first == 0) f.push_back(zq(t.second));
        for (auto& q : M[t.first].v) for (u32 i = 0; i < q.second; i++) f.push_back(zAtom(q.first));
        if (f.size() == 1) sum.push_back(f[0]);
        else { vector<Z3_ast> as; for (unsigned i = 0; i < f.size(); i++) as.push_back(f[i]); sum.push_back(zMk(true, as)); }
    }
    if (sum.size() == 1) return sum[0];
    vector<Z3_ast> as; for (unsigned i = 0; i < sum.size(); i++) as.push_back(sum[i]);
    return zMk(false, as);
}
static z3::expr zSign(u32 p, u8 mask) {
    auto sp = splitConst(p); z3::expr q = zPoly(sp.first); z3::expr v = zq(-sp.second);
    switch (mask) { case 1: return q < v; case 2: return q == v; case 3: return q <= v; case 4: return q > v; case 5: return q != v; default: return q >= v; }
}
static z3::expr fpBoolZ(u32 b);
static z3::expr zBool(u32 b) {
    if (b < 2) return Z->bool_val(b == 1);
    const BoolE e = B[b];
    switch (e.k) {
    case BoolE::LIT: return zSign(e.p, e.mask);
    case BoolE::FP: return fpBoolZ(b);
    default: { z3::expr_vector v(*Z); for (u32 c : e.ch) v.push_back(zBool(c)); return e.k == BoolE::AND ? z3::mk_and(v) : z3::mk_or(v); }
    }
}
static void boolPolys(u32 b, std::set<u32>& ps) { if (b < 2) return; const BoolE& e = B[b]; if (e.k == BoolE::LIT) ps.insert(e.p); else if (e.k != BoolE::FP) for (u32 c : e.ch) boolPolys(c, ps); }
static void atomsOf(u32 p, std::set<u32>& as) { for (auto& t : P[p].t) for (auto& f : M[t.first].v) if (as.insert(f.first).second) if (A[f.first].k != Atom::INPUT) atomsOf(A[f.first].arg, as); }

struct CacheE { int res; vector<std::pair<string, mpq_class>> model; bool exact; };
static std::unordered_map<H, CacheE, HH> qCache;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static int fpSolve(u32 extra, bool wantModel);
static bool getRat(const z3::expr& v, mpq_class& out) {
    if (v.is_numeral()) { string s = v.get_decimal_string(0); (void)s; try { out = mpq_class(Z3_get_numeral_string(*Z, v)); out.canonicalize(); return true; } catch (...) { return false; } }
    if (v.is_algebraic()) { z3::expr l(*Z, Z3_get_algebraic_number_lower(*Z, v, 40)); out = mpq_class(Z3_get_numeral_string(*Z, l)); out.canonicalize(); return true; }
    return false;
}
// ============================================================ branch and prune
// Queries with square roots over few inputs: interval subdivision of the input box, with
// outward rounding. Answers 0 (no point of the box satisfies everything), 1 (a point or a
// sign change was found) or -1 (left to z3).
struct ID { double lo, hi; };
static inline double dn(double x) { return std::nextafter(x, -INFINITY); }
static inline double up(double x) { return std::nextafter(x, INFINITY); }
static inline ID idMul(const ID& a, const ID& b) {
    double l = INFINITY, h = -INFINITY;
    for (double x : {a.lo, a.hi}) for (double y : {b.lo, b.hi}) {
        if (x == 0 || y == 0) { l = std::min(l, 0.0); h = std::max(h, 0.0); continue; }
        double q = x * y; l = std::min(l, dn(q)); h = std::max(h, up(q));
    }
    return {l, h};
}
static inline ID idAdd(const ID& a, const ID& b) { ID r{dn(a.lo + b.lo), up(a.hi + b.hi)}; if (std::isnan(r.lo)) r.lo = -INFINITY; if (std::isnan(r.hi)) r.hi = INFINITY; return r; }
static ID idQ(const mpq_class& q) { double d = q.get_d(); if (std::isfinite(d) && mpq_class(d) == q) return {d, d}; return {dn(d), up(d)}; }
struct IcpPoly { vector<std::pair<ID, vector<std::pair<u32, u32>>>> t; };
struct Icp {
    std::map<u32, int> known; // polynomials whose sign the equation fixes
    vector<u32> atoms; std::map<u32, u32> ix; vector<IcpPoly> argPoly; std::map<u32, u32> polyAt; vector<IcpPoly> polys;
    vector<ID> v; bool empty, certain;
    vector<u32> ins; // local indices of the inputs
    IcpPoly comp(u32 p) { IcpPoly r; for (auto& t : P[p].t) { vector<std::pair<u32, u32>> f; for (auto& q : M[t.first].v) f.push_back({ix[q.first], q.second}); r.t.push_back({idQ(t.second), f}); } return r; }
    void setup(const std::set<u32>& as, const std::set<u32>& ps) {
        for (u32 a : as) { ix[a] = atoms.size(); atoms.push_back(a); }
        for (u32 a : atoms) { if (A[a].k == Atom::INPUT) { ins.push_back(ix[a]); argPoly.push_back({}); } else argPoly.push_back(comp(A[a].arg)); }
        for (u32 p : ps) { polyAt[p] = polys.size(); polys.push_back(comp(p)); }
        v.resize(atoms.size());
    }
    ID eval(const IcpPoly& p) {
        ID r{0, 0};
        for (auto& t : p.t) {
            ID m = t.first;
            for (auto& f : t.second) {
                ID x = v[f.first]; u32 e = f.second;
                if (e >= 2) { ID s = idMul(x, x); if (s.lo < 0 || (x.lo < 0 && x.hi > 0)) s.lo = 0; else if (x.lo > 0) s.lo = std::max(0.0, dn(x.lo * x.lo)); else if (x.hi < 0) s.lo = std::max(0.0, dn(x.hi * x.hi)); for (u32 k = 0; k < e / 2; k++) m = idMul(m, s); e %= 2; }
                if (e) m = idMul(m, x);
            }
            r = idAdd(r, m);
        }
        return r;
    }
    void box(const vector<ID>& b) { // evaluates every atom
        empty = false; certain = true; size_t k = 0;
        for (size_t i = 0; i < atoms.size() && !empty; i++) {
            const Atom& a = A[atoms[i]];
            if (a.k == Atom::INPUT) { v[i] = b[k++]; continue; }
            ID x = eval(argPoly[i]);
            switch (a.k) {
            case Atom::SQRT: if (x.hi < 0) empty = true; if (x.lo < 0) { certain = false; x.lo = 0; } v[i] = {std::max(0.0, dn(std::sqrt(x.lo))), up(std::sqrt(std::max(0.0, x.hi)))}; break;
            case Atom::INV: if (x.lo <= 0 && x.hi >= 0) { if (x.lo == 0 && x.hi == 0) empty = true; certain = false; v[i] = {x.lo == 0 ? dn(1 / x.hi) : -INFINITY, x.hi == 0 ? up(1 / x.lo) : INFINITY}; } else v[i] = {dn(1 / x.hi), up(1 / x.lo)}; break;
            case Atom::ABS: v[i] = x.lo >= 0 ? x : x.hi <= 0 ? ID{-x.hi, -x.lo} : ID{0, std::max(-x.lo, x.hi)}; break;
            default: v[i] = x;
            }
        }
    }
    int lit(u32 p, u8 mask) { auto kn = known.find(p); if (kn != known.end()) return (mask & (kn->second < 0 ? 1 : kn->second == 0 ? 2 : 4)) ? 1 : 0; ID x = eval(polys[polyAt[p]]); u8 m = 7; if (x.lo > 0) m = 4; else if (x.hi < 0) m = 1; else { if (x.lo == 0) m &= 6; if (x.hi == 0) m &= 3; } if (!(m & ~mask)) return 1; if (!(m & mask)) return 0; return -1; }
    int boolE(u32 b) {
        if (b < 2) return b; const BoolE& e = B[b];
        if (e.k == BoolE::LIT) return lit(e.p, e.mask);
        bool an = e.k == BoolE::AND; int r = an ? 1 : 0;
        for (u32 c : e.ch) { int q = boolE(c); if (q == (an ? 0 : 1)) return q; if (q < 0) r = -1; }
        return r;
    }
};
// Polynomial constraints over a single input: exact subdivision in the Bernstein basis
// (integer coefficients), again 0 / 1 / -1.
struct Uni {
    struct Q { vector<mpz_class> b; };               // Bernstein coefficients up to a positive factor
    vector<std::pair<u32, mpq_class>> src; vector<u8> want; // polynomial minus constant; allowed signs (0: only used in formulas)
    std::map<u32, int> litIx; u32 atom; mpq_class lo, hi;
    int add(u32 p, const mpq_class& c, u8 mask) { for (size_t i = 0; i < src.size(); i++) if (src[i].first == p && src[i].second == c) { if (mask) want[i] = want[i] ? (want[i] & mask) : mask; return i; } src.push_back({p, c}); want.push_back(mask); return src.size() - 1; }
    void addBool(u32 b) { std::set<u32> s; boolPolys(b, s); for (u32 p : s) if (!litIx.count(p)) litIx[p] = add(p, 0, 0); }
    Q bern(u32 p, const mpq_class& c) {
        u32 d = 0; for (auto& t : P[p].t) d = std::max(d, (u32)M[t.first].deg); vector<mpq_class> a(d + 1); for (auto& t : P[p].t) a[M[t.first].deg] += t.second; a[0] -= c;
        // shift to [lo,hi]: x = lo + u (hi - lo)
        for (u32 i = 0; i < d; i++) for (u32 j = d; j-- > i;) a[j] += lo * a[j + 1];
        mpq_class w = hi - lo, f = 1; for (u32 i = 0; i <= d; i++) { a[i] *= f; f *= w; }
        vector<mpq_class> b(d + 1); vector<vector<mpz_class>> C(d + 1, vector<mpz_class>(d + 1)); for (u32 i = 0; i <= d; i++) { C[i][0] = 1; for (u32 j = 1; j <= i; j++) C[i][j] = C[i - 1][j - 1] + (j <= i - 1 ? C[i - 1][j] : mpz_class(0)); }
        for (u32 i = 0; i <= d; i++) for (u32 j = 0; j <= i; j++) b[i] += mpq_class(C[i][j]) / C[d][j] * a[j];
        mpz_class l = 1; for (auto& x : b) { x.canonicalize(); mpz_lcm(l.get_mpz_t(), l.get_mpz_t(), x.get_den().get_mpz_t()); }
        Q q; for (auto& x : b) q.b.push_back(x.get_num() * (l / x.get_den())); norm(q); return q;
    }
    static void norm(Q& q) { mp_bitcnt_t z = ~(mp_bitcnt_t)0; for (auto& x : q.b) if (x != 0) z = std::min(z, mpz_scan1(x.get_mpz_t(), 0)); if (z != ~(mp_bitcnt_t)0 && z > 0) for (auto& x : q.b) mpz_tdiv_q_2exp(x.get_mpz_t(), x.get_mpz_t(), z); }
    static u8 range(const Q& q) { bool n = false, z = false, p = false; for (auto& x : q.b) { int s = sgn(x); if (s < 0) n = true; else if (s > 0) p = true; else z = true; } if (n && p) return 7; return (n ? 1 : 0) | (z ? 2 : 0) | (p ? 4 : 0); }
    static void split(const Q& q, Q& l, Q& r) { vector<mpz_class> t = q.b; size_t d = t.size() - 1; l.b.resize(d + 1); r.b.resize(d + 1); for (size_t k = 0; k <= d; k++) { l.b[k] = t[0] << (d - k); r.b[d - k] = t[d - k] << (d - k); for (size_t i = 0; i + k < d; i++) t[i] = t[i] + t[i + 1]; } norm(l); norm(r); }
    int boolE(u32 b, const vector<u8>& rg) { if (b < 2) return b; const BoolE& e = B[b]; if (e.k == BoolE::LIT) { u8 m = rg[litIx[e.p]]; return !(m & ~e.mask) ? 1 : !(m & e.mask) ? 0 : -1; } bool an = e.k == BoolE::AND; int r = an; for (u32 c : e.ch) { int q = boolE(c, rg); if (q == (an ? 0 : 1)) return q; if (q < 0) r = -1; } return r; }
};
// signs a polynomial of one input takes over the declared range of that input
static u8 uniMask(u32 p) {
    auto it = uniMemo.find(p); if (it != uniMemo.end()) return it->second;
    uniMemo[p] = 7; u32 at = 0; bool has = false; u32 d = 0;
    for (auto& t : P[p].t) { const Mono& m = M[t.first]; d = std::max(d, (u32)m.deg); for (auto& f : m.v) { if (has && f.first != at) return 7; has = true; at = f.first; } }
    if (!has || d < 2 || d > 40 || A[at].k != Atom::INPUT || A[at].name[0] == '$' || !(A[at].lo < A[at].hi)) return 7;
    Uni u; u.lo = A[at].lo; u.hi = A[at].hi; vector<std::pair<Uni::Q, int>> st; st.push_back({u.bern(p, 0), 0}); u8 m = 0; int n = 0;
    while (!st.empty()) {
        auto q = std::move(st.back()); st.pop_back(); u8 r = Uni::range(q.first);
        int a = sgn(q.first.b.front()), b = sgn(q.first.b.back()); m |= a < 0 ? 1 : a ? 4 : 2; m |= b < 0 ? 1 : b ? 4 : 2; if ((m & 1) && (m & 4)) return 7;
        if (!(r & ~m)) continue;
        if (q.second > 30 || ++n > 200) return 7;
        Uni::Q x, y; Uni::split(q.first, x, y); st.push_back({std::move(x), q.second + 1}); st.push_back({std::move(y), q.second + 1});
    }
    return uniMemo[p] = m;
}
static u32 polyDeg(u32 p) { u32 d = 0; for (auto& t : P[p].t) d = std::max(d, (u32)M[t.first].deg); return d; }
static int uniSolve(const vector<u32>& fq, const vector<u32>& xb, const vector<u32>& extra, u32 atom, vector<std::pair<string, mpq_class>>& mod) {
    Uni u; u.atom = atom; const Atom& a = A[atom]; if (a.name[0] == '$') return -1;
    Iv x = ivFact(pAtom(atom)); u.lo = a.lo; u.hi = a.hi; if (!x.nl && x.lo > u.lo) u.lo = x.lo; if (!x.nh && x.hi < u.hi) u.hi = x.hi; if (u.lo > u.hi) return 0; if (u.lo == u.hi) return -1;
    for (u32 q : fq) { const Bnd& b = facts[q]; if (b.hasLo) u.add(q, b.lo, b.loS ? 4 : 6); if (b.hasHi) u.add(q, b.hi, b.hiS ? 1 : 3); for (auto& n : b.ne) u.add(q, n, 5); }
    vector<u32> fs; for (u32 b : xb) fs.push_back(b); for (u32 b : extra) { if (b < 2) { if (b == 0) return 0; continue; } if (B[b].k == BoolE::LIT) { auto sp = splitConst(B[b].p); u.add(sp.first, -sp.second, B[b].mask); } else fs.push_back(b); }
    for (u32 b : fs) { if (B[b].k == BoolE::FP) return -1; u.addBool(b); }
    for (auto& s : u.src) if (polyDeg(s.first) > 90) return -1;
    size_t n = u.src.size(); struct Box { vector<Uni::Q> q; mpq_class l, h; int depth; }; vector<Box> stack; { Box b; b.l = u.lo; b.h = u.hi; b.depth = 0; for (auto& s : u.src) b.q.push_back(u.bern(s.first, s.second)); stack.push_back(b); }
    double t0 = now();
    while (!stack.empty()) {
        if (now() - t0 > 2.0) return -1;
        Box b = std::move(stack.back()); stack.pop_back();
        vector<u8> rg(n), el(n), er(n); bool dead = false; int open = 0; size_t eq = n;
        for (size_t i = 0; i < n; i++) {
            rg[i] = Uni::range(b.q[i]); int s0 = sgn(b.q[i].b.front()), s1 = sgn(b.q[i].b.back()); el[i] = s0 < 0 ? 1 : s0 ? 4 : 2; er[i] = s1 < 0 ? 1 : s1 ? 4 : 2;
            if (u.want[i]) { if (!(rg[i] & u.want[i])) { dead = true; break; } if (rg[i] & ~u.want[i]) { open++; if (u.want[i] == 2) eq = i; } }
        }
        // a range with sign 2 and one other sign may only vanish at an end point: kept as possible, never wrong
        if (dead) continue;
        for (u32 f : fs) { int r = u.boolE(f, rg); if (r == 0) { dead = true; break; } if (r < 0) open++; }
        if (dead) continue;
        auto holds = [&](const vector<u8>& e) { for (size_t i = 0; i < n; i++) if (u.want[i] && !(e[i] & u.want[i])) return false; for (u32 f : fs) if (u.boolE(f, e) != 1) return false; return true; };
        if (holds(el)) { mod = {{a.name, b.l}}; return 1; }
        if (holds(er)) { mod = {{a.name, b.h}}; return 1; }
        if (open == 1 && eq < n && ((el[eq] == 1 && er[eq] == 4) || (el[eq] == 4 && er[eq] == 1))) { // a root by sign change, everything else holds throughout
            Uni::Q q = b.q[eq], l, r; mpq_class x = b.l, w = b.h - b.l; for (int g = 0; g < 120; g++) { Uni::split(q, l, r); w /= 2; if (sgn(l.b.front()) * sgn(l.b.back()) <= 0) q = l; else { q = r; x += w; } }
            mod = {{a.name, x}}; return 1;
        }
        if (b.depth > 70) return -1;
        Box l, r; l.depth = r.depth = b.depth + 1; l.l = b.l; r.h = b.h; l.h = r.l = (b.l + b.h) / 2; l.q.resize(n); r.q.resize(n); for (size_t i = 0; i < n; i++) Uni::split(b.q[i], l.q[i], r.q[i]);
        stack.push_back(std::move(l)); stack.push_back(std::move(r));
    }
    return 0;
}
static int icpSolve(const vector<u32>& fq, const vector<u32>& xb, const vector<u32>& extra, const std::set<u32>& as, const std::set<u32>& ps, vector<std::pair<string, mpq_class>>& mod) {
    size_t nin = 0; for (u32 a : as) { if (A[a].k == Atom::FUN) return -1; if (A[a].k == Atom::INPUT) { nin++; if (A[a].name[0] == '$') return -1; } }
    if (nin == 0 || nin > 3) return -1;
    struct F { u32 p; bool hl, hh, ls, hs; ID lo, hi; vector<ID> ne; }; vector<F> fs;
    for (u32 q : fq) { const Bnd& b = facts[q]; F f{q, b.hasLo, b.hasHi, b.loS, b.hiS, {0, 0}, {0, 0}, {}}; if (b.hasLo) f.lo = idQ(b.lo); if (b.hasHi) f.hi = idQ(b.hi); for (auto& n : b.ne) f.ne.push_back(idQ(n)); fs.push_back(f); }
    // one equation is solved by looking for a sign change
    u32 eqP = 0; bool hasEq = false; mpq_class eqC; u32 eqB = 0; for (u32 b : extra) if (B[b].k == BoolE::LIT && !hasEq) {
        auto sp = splitConst(B[b].p); mpq_class c = -sp.second; u8 mk = B[b].mask; auto it = facts.find(sp.first); // p <= c together with the known p >= c is an equation too
        if (it != facts.end()) { const Bnd& q = it->second; if (mk == 3 && q.hasLo && q.lo == c && !q.loS) mk = 2; if (mk == 6 && q.hasHi && q.hi == c && !q.hiS) mk = 2; }
        if (mk == 2) { hasEq = true; eqP = sp.first; eqC = c; eqB = b; }
    }
    for (size_t i = 0; i < fq.size(); i++) { const Bnd& b = facts[fq[i]]; if (!hasEq && b.hasLo && b.hasHi && b.lo == b.hi) { hasEq = true; eqP = fq[i]; eqC = b.lo; } }
    ID eqI = idQ(eqC);
    if (hasEq) { auto it = facts.find(eqP); if (it != facts.end()) { const Bnd& b = it->second; if ((b.hasLo && (eqC < b.lo || (eqC == b.lo && b.loS))) || (b.hasHi && (eqC > b.hi || (eqC == b.hi && b.hiS)))) return 0; for (auto& n : b.ne) if (n == eqC) return 0; } }
    std::set<u32> ps2 = ps; if (hasEq) ps2.insert(eqP); Icp s; s.setup(as, ps2); if (hasEq) for (u32 p : ps) { auto sp = splitConst(p); if (sp.first == eqP) s.known[p] = sgn(mpq_class(eqC + sp.second)); }
    auto all = [&](bool skipEq) {
        int r = s.certain ? 1 : -1;
        for (auto& f : fs) {
            ID x = s.eval(s.polys[s.polyAt[f.p]]);
            if (skipEq && f.p == eqP) { if (x.hi < eqI.lo || x.lo > eqI.hi) return 0; continue; }
            if (f.hl) { if (x.hi < f.lo.lo || (f.ls && x.hi <= f.lo.lo)) return 0; if (!(x.lo > f.lo.hi || (!f.ls && x.lo >= f.lo.hi))) r = -1; }
            if (f.hh) { if (x.lo > f.hi.hi || (f.hs && x.lo >= f.hi.hi)) return 0; if (!(x.hi < f.hi.lo || (!f.hs && x.hi <= f.hi.lo))) r = -1; }
            for (auto& n : f.ne) if (!(x.hi < n.lo || x.lo > n.hi)) r = -1;
        }
        for (u32 b : xb) { int q = s.boolE(b); if (q == 0) return 0; if (q < 0) r = -1; }
        for (u32 b : extra) { if (skipEq && eqB && b == eqB) { ID x = s.eval(s.polys[s.polyAt[eqP]]); if (x.hi < eqI.lo || x.lo > eqI.hi) return 0; continue; } int q = s.boolE(b); if (q == 0) return 0; if (q < 0) r = -1; }
        return r;
    };
    typedef vector<ID> Box; vector<Box> stack; Box b0;
    for (u32 i : s.ins) { const Atom& a = A[s.atoms[i]]; Iv x = ivFact(pAtom(s.atoms[i])); mpq_class lo = a.lo, hi = a.hi; if (!x.nl && x.lo > lo) lo = x.lo; if (!x.nh && x.hi < hi) hi = x.hi; if (lo > hi) return 0; b0.push_back({idQ(lo).lo, idQ(hi).hi}); }
    stack.push_back(b0); double t0 = now(); int limit = nin == 1 ? 20000 : 6000;
    while (!stack.empty()) {
        if (--limit < 0 || now() - t0 > (nin == 1 ? 4.0 : 0.7)) return -1;
        Box b = stack.back(); stack.pop_back();
        s.box(b); if (s.empty) continue;
        int r = all(hasEq); if (r == 0) continue;
        auto emit = [&](const Box& m) { mod.clear(); for (size_t k = 0; k < s.ins.size(); k++) mod.push_back({A[s.atoms[s.ins[k]]].name, mpq_class(m[k].lo)}); };
        if (!hasEq) {
            Box m; for (auto& x : b) { double c = x.lo + (x.hi - x.lo) * 0.5; m.push_back({c, c}); }
            if (r != 1) { s.box(m); if (!s.empty) r = all(false); }
            if (r == 1) { emit(m); return 1; }
        } else if (r == 1) { // every other constraint holds on the box: opposite signs at two of its corners?
            int got[3] = {-1, -1, -1}; // a corner with negative / zero / positive sign
            auto corner = [&](int k) { Box m; for (size_t i = 0; i < b.size(); i++) { double c = (k >> i) & 1 ? b[i].hi : b[i].lo; m.push_back({c, c}); } return m; };
            for (int k = 0; k < (1 << b.size()); k++) { s.box(corner(k)); ID x = s.eval(s.polys[s.polyAt[eqP]]); int g = x.lo > eqI.hi ? 2 : x.hi < eqI.lo ? 0 : 1; got[g] = k; }
            if (got[0] >= 0 && got[2] >= 0) { // refine the root between the two corners
                Box c0 = corner(got[0]), c1 = corner(got[2]); vector<mpq_class> x0, x1; for (auto& x : c0) x0.push_back(mpq_class(x.lo)); for (auto& x : c1) x1.push_back(mpq_class(x.lo));
                Model* sm = evalModel; Model tm; mpq_class l = 0, h = 1; mpf_class c0f(eqC, 192);
                auto at = [&](const mpq_class& t) { for (size_t k = 0; k < x0.size(); k++) tm[s.atoms[s.ins[k]]] = x0[k] + (x1[k] - x0[k]) * t; evalReset(&tm); return mpf_class(evalPoly(eqP) - c0f); };
                for (int g = 0; g < 150; g++) { mpq_class c = (l + h) / 2; mpf_class y = at(c); if (y == 0) { l = h = c; break; } if (y < 0) l = c; else h = c; }
                at(l); mod.clear(); for (auto& kv : tm) mod.push_back({A[kv.first].name, kv.second}); evalReset(sm); return 1;
            }
        }
        size_t w = 0; double best = -1; for (size_t k = 0; k < b.size(); k++) { double d = (b[k].hi - b[k].lo) / std::max(1e-30, (b0[k].hi - b0[k].lo)); if (d > best) { best = d; w = k; } }
        double c = b[w].lo + (b[w].hi - b[w].lo) * 0.5; if (!(c > b[w].lo && c < b[w].hi) || best < 1e-13) return -1;
        Box l = b, h = b; l[w].hi = c; h[w].lo = c; stack.push_back(l); stack.push_back(h);
    }
    return 0;
}
// Is PC && all(extra) satisfiable?  1 sat, 0 unsat, -1 unknown. On sat fills model (merge into m).
static bool noIcp = getenv("SX_NOICP") != nullptr;
static int solveQ(const vector<u32>& extra, Model* m, unsigned timeout, bool full = false) {
    std::set<u32> ps; for (u32 b : extra) boolPolys(b, ps);
    std::set<u32> ins; for (u32 p : ps) { auto& v = inputsOf(p); ins.insert(v.begin(), v.end()); }
    vector<u32> fq; vector<u32> xb; std::set<u32> usedF; vector<bool> usedX(extraPC.size(), false);
    bool ch = true;
    vector<std::pair<u32, const Bnd*>> fl; for (auto& f : facts) fl.push_back({f.first, &f.second});
    vector<vector<u32>> xin(extraPC.size());
    for (size_t i = 0; i < extraPC.size(); i++) { std::set<u32> s; boolPolys(extraPC[i], s); std::set<u32> t; for (u32 p : s) { auto& v = inputsOf(p); t.insert(v.begin(), v.end()); } xin[i].assign(t.begin(), t.end()); }
    while (ch) {
        ch = false;
        for (auto& f : fl) if (!usedF.count(f.first)) {
            auto& v = inputsOf(f.first); bool hit = full; for (u32 i : v) if (ins.count(i)) { hit = true; break; }
            if (hit) { usedF.insert(f.first); fq.push_back(f.first); for (u32 i : v) if (ins.insert(i).second) ch = true; }
        }
        for (size_t i = 0; i < extraPC.size(); i++) if (!usedX[i]) {
            bool hit = full; for (u32 k : xin[i]) if (ins.count(k)) { hit = true; break; }
            if (hit) { usedX[i] = true; xb.push_back(extraPC[i]); for (u32 k : xin[i]) if (ins.insert(k).second) ch = true; }
        }
    }
    // cache key
    vector<H> hv;
    for (u32 q : fq) { const Bnd& b = facts[q]; H h = P[q].h; if (b.hasLo) h = hc(h, hc(hs(b.loS), hq(b.lo))); h = hc(h, hs(9)); if (b.hasHi) h = hc(h, hc(hs(b.hiS), hq(b.hi))); vector<mpq_class> n = b.ne; std::sort(n.begin(), n.end()); for (auto& x : n) h = hc(h, hq(x)); hv.push_back(h); }
    for (u32 b : xb) hv.push_back(B[b].h); for (u32 b : extra) hv.push_back(B[b].h);
    std::sort(hv.begin(), hv.end()); H key = hs(timeout > qTimeout ? 5 : 3); for (auto& h : hv) key = hc(key, h);
    auto it = qCache.find(key);
    if (it != qCache.end()) {
        st.cacheHits++;
        if (it->second.res == 1 && m) { for (auto& kv : it->second.model) { H h = hc(hs(100 + Atom::INPUT), hstr(kv.first)); auto ai = atomIx.find(h); if (ai != atomIx.end()) (*m)[ai->second] = kv.second; } }
        return it->second.res;
    }
    // build
    for (u32 q : fq) ps.insert(q); for (u32 b : xb) boolPolys(b, ps);
    std::set<u32> as; for (u32 p : ps) atomsOf(p, as);
    bool linear = true;
    for (u32 a : as) if (A[a].k != Atom::INPUT && A[a].k != Atom::FUN) linear = false;
    if (linear) for (u32 p : ps) for (auto& t : P[p].t) if (M[t.first].deg > 1) linear = false;
    if (zBroken) { zBroken = false; zReset(true); }
    double t0 = now(); st.queries++; zUses++;
    int res = -1; bool exact = true; vector<std::pair<string, mpq_class>> mod;
    auto fill = [&](z3::solver& s) {
        for (u32 q : fq) {
            const Bnd& b = facts[q]; z3::expr e = zPoly(q);
            if (b.hasLo && b.hasHi && b.lo == b.hi) s.add(e == zq(b.lo));
            else { if (b.hasLo) s.add(b.loS ? e > zq(b.lo) : e >= zq(b.lo)); if (b.hasHi) s.add(b.hiS ? e < zq(b.hi) : e <= zq(b.hi)); }
            for (auto& n : b.ne) s.add(e != zq(n));
        }
        for (u32 b : xb) s.add(zBool(b)); for (u32 b : extra) s.add(zBool(b));
        for (u32 a : as) switch (A[a].k) {
            case Atom::INV: s.add(zAtom(a) * zPoly(A[a].arg) == 1); break;
            case Atom::SQRT: s.add(zAtom(a) >= 0); s.add(zAtom(a) * zAtom(a) == zPoly(A[a].arg)); break;
            case Atom::ABS: s.add(zAtom(a) == z3::ite(zPoly(A[a].arg) >= 0, zPoly(A[a].arg), -zPoly(A[a].arg))); break;
            case Atom::OPQ: s.add(zAtom(a) == zPoly(A[a].arg)); break;
            default: break;
        }
    };
    auto run = [&](z3::solver& s, unsigned to) {
        try {
            z3::params p(*Z); p.set("timeout", to); s.set(p); fill(s);
            auto r = s.check(); 
            if (r == z3::unsat) return 0;
            if (r == z3::sat) {
                z3::model mm = s.get_model(); mod.clear();
                for (u32 a : as) if (A[a].k == Atom::INPUT || A[a].k == Atom::FUN) { z3::expr v = mm.eval(zAtom(a), true); mpq_class q; if (getRat(v, q)) mod.push_back({A[a].name, q}); if (!v.is_numeral()) exact = false; }
                return 1;
            }
        } catch (z3::exception& e) { fprintf(stderr, "z3: %s\n", e.msg()); zBroken = true; }
        return -1;
    };
    if (linear) { z3::solver s(*Z, "QF_LRA"); res = run(s, timeout); }
    else if (!noIcp && as.size() == 1 && A[*as.begin()].k == Atom::INPUT && (res = uniSolve(fq, xb, extra, *as.begin(), mod)) >= 0) st.icp++;
    else if (!noIcp && (res = icpSolve(fq, xb, extra, as, ps, mod)) >= 0) st.icp++;
    else {
        { z3::solver s = z3::tactic(*Z, "qfnra-nlsat").mk_solver(); res = run(s, timeout); }
        if (res < 0) { z3::solver s(*Z, "QF_NRA"); res = run(s, timeout); }
    }
    st.solverTime += now() - t0;
    if (getenv("SX_SLOW") && now() - t0 > atof(getenv("SX_SLOW"))) {
        fprintf(stderr, "SLOW %.2fs res=%d fq=%zu xb=%zu atoms=%zu at %s\n", now() - t0, res, fq.size(), xb.size(), as.size(), currentLocation().c_str());
        for (u32 a : as) fprintf(stderr, "  atom a_%u kind %d %s arg=%s\n", a, A[a].k, A[a].name.c_str(), A[a].k==Atom::INPUT?"":showD(boxD(A[a].arg)).c_str());
        z3::solver s(*Z); fill(s); fprintf(stderr, "%s\n", s.to_smt2().c_str());
    }
    if (res == 1) st.sat++; else if (res == 0) st.unsat++; else st.unknown++;
    if (qCache.size() > 400000) qCache.clear();
    CacheE ce; ce.res = res; ce.model = mod; ce.exact = exact; qCache[key] = ce;
    if (res == 1 && m) for (auto& kv : mod) { H h = hc(hs(100 + Atom::INPUT), hstr(kv.first)); auto ai = atomIx.find(h); if (ai != atomIx.end()) (*m)[ai->second] = kv.second; }
    return res;
}

// ============================================================ exploration
static Prefix prefix; static size_t dpos; static Prefix trace;
static vector<std::pair<string, i64>> choiceLog; // choice values, in order (for replay files)
static vector<u32> inputOrder;
static bool replaying() { return dpos < prefix.size(); }
static vector<std::pair<u32, z3::expr>>* fpPC = nullptr;

static void setModelAfterPrefix() {
    // obtain a model of the whole path condition
    if (fpMode) return;
    curModel.clear();
    // solve slice by slice
    std::set<u32> done;
    for (u32 a : inputOrder) if (!done.count(a)) {
        Model m; std::set<u32> before;
        u32 triv = bLit(pSub(pAtom(a), pConst(A[a].lo)), 6);
        if (triv < 2) continue;
        int r = solveQ({triv}, &m, qTimeout);
        if (r == 1) for (auto& kv : m) { curModel[kv.first] = kv.second; done.insert(kv.first); }
        if (r == 0) throw PathEnd{End::Infeasible, "prefix infeasible"};
    }
    evalReset(&curModel);
}
static void pushAlt(const Decision& d) {
    Pending pd; pd.prefix = trace; pd.prefix.push_back(d); pendingStack.push_back(std::move(pd)); st.forks++;
}
static void record(const Decision& d) { trace.push_back(d); st.decisions++; if (trace.size() > st.maxDepth) st.maxDepth = trace.size(); }
static int fpFeasible(u32 b);
static void fpAssume(u32 b);
static bool dirtyModel = false;

bool decideB(u32 b) {
    if (b < 2) return b;
    if (!fpMode) { int q = quickBool(b); if (q >= 0) { st.quick++; return q; } }
    if (replaying()) {
        Decision d = prefix[dpos++];
        if (d.kind != 0) { fprintf(stderr, "replay divergence (branch) at %s\n", currentLocation().c_str()); throw PathEnd{End::Unsupported, "replay divergence"}; }
        record(d); u32 c = d.val ? b : bNeg(b);
        if (fpMode) fpAssume(c); else addPC(c);
        if (!replaying()) dirtyModel = true;
        return d.val;
    }
    if (fpMode) {
        int t = fpFeasible(b), f = t == 0 ? 1 : fpFeasible(bNeg(b));
        if (t == 0 && f == 0) throw PathEnd{End::Infeasible, "both sides infeasible"};
        Decision d{}; d.kind = 0; d.val = t != 0;
        if (t != 0 && f != 0) { Decision o = d; o.val = 0; pushAlt(o); }
        record(d); fpAssume(d.val ? b : bNeg(b)); return d.val;
    }
    if (dirtyModel) { setModelAfterPrefix(); dirtyModel = false; }
    int e = evalBool(b); bool side = e == 1;
    u32 c = side ? b : bNeg(b), o = side ? bNeg(b) : b;
    Model m2 = curModel;
    int r = solveQ({o}, &m2, qTimeout);
    Decision d{}; d.kind = 0; d.val = side;
    if (r != 0) { Decision od = d; od.val = !side; pushAlt(od); }
    record(d); addPC(c);
    return side;
}
bool decide(u64 v) { if (!isSymB(v)) return v & 1; return decideB(boxId(v)); }

void symAssume(u64 v) {
    u32 b = ub(v); if (b == 1) return; if (b == 0) throw PathEnd{End::Infeasible, "assume"};
    if (!fpMode) { int q = quickBool(b); if (q == 1) return; if (q == 0) throw PathEnd{End::Infeasible, "assume"}; }
    if (replaying()) {
        Decision d = prefix[dpos++]; if (d.kind != 2) { fprintf(stderr, "replay divergence (assume)\n"); throw PathEnd{End::Unsupported, "replay divergence"}; }
        record(d); if (fpMode) fpAssume(b); else addPC(b); if (!replaying()) dirtyModel = true; return;
    }
    if (fpMode) { if (fpFeasible(b) == 0) throw PathEnd{End::Infeasible, "assume"}; Decision d{}; d.kind = 2; record(d); fpAssume(b); return; }
    if (dirtyModel) { setModelAfterPrefix(); dirtyModel = false; }
    if (evalBool(b) != 1) {
        Model m2 = curModel; int r = solveQ({b}, &m2, qTimeout);
        if (r == 0) throw PathEnd{End::Infeasible, "assume"};
        if (r == 1) { curModel = m2; evalReset(&curModel); }
    }
    Decision d{}; d.kind = 2; record(d); addPC(b);
}

static string hexf(double d) { char b[64]; snprintf(b, 64, "%a", d); return b; }
static void fpModelValues(Candidate& c, u32 extra);
// choose values for the replay: prefer short dyadics that satisfy everything
static void modelValues(const vector<u32>& extra, Candidate& c) {
    Model m; vector<u32> ex = extra;
    int r = solveQ(ex, &m, qTimeout * 2, true);
    if (r != 1) m = curModel;
    std::map<u32, double> fin;
    double tEnd = now() + 20;
    bool printed = false; for (u32 a : inputOrder) if (A[a].name.compare(0, 1, "$") == 0) printed = true; // rounded values: prefer inputs that are not round numbers
    for (u32 a : inputOrder) {
        if (A[a].name.compare(0, 1, "$") == 0) continue; // internal
        mpq_class v = m.count(a) ? m[a] : mpq_class((A[a].lo + A[a].hi) / 2);
        double dv = v.get_d();
        if (now() < tEnd && r == 1) {
            bool ok = false;
            for (int k : {-1, 0, 2, 5, 10, 20}) {
                if (k < 0 && !printed) continue;
                double t = k < 0 ? mpq_class(A[a].lo + (A[a].hi - A[a].lo) * mpq_class((long)(A[a].h.a % 1021) + 1, 1023)).get_d() : std::ldexp(std::round(std::ldexp(dv, k)), -k);
                mpq_class q(t);
                if (q < A[a].lo || q > A[a].hi) continue;
                u32 eq = bLit(pSub(pAtom(a), pConst(q)), 2);
                if (eq == 0) continue;
                vector<u32> e2 = ex; if (eq != 1) e2.push_back(eq);
                Model m2 = m; if (solveQ(e2, &m2, 1500, true) == 1) { m = m2; ex = e2; dv = t; ok = true; break; }
            }
            if (!ok) { // pin to the value nearest to the model
                mpq_class q(dv); u32 eq = bLit(pSub(pAtom(a), pConst(q)), 2);
                if (eq > 1) { vector<u32> e2 = ex; e2.push_back(eq); Model m2 = m; if (solveQ(e2, &m2, 1500, true) == 1) { m = m2; ex = e2; } }
            }
        }
        fin[a] = dv;
    }
    for (auto& kv : fin) c.values.push_back({A[kv.first].name, hexf(kv.second)});
}
static std::map<string, int> candCount;
static void addCandidate(const string& kind, const string& label, const vector<u32>& extra) {
    string k = kind + ":" + label;
    if (candCount[k] >= maxCandPerLabel) { candCount[k]++; return; }
    candCount[k]++;
    Candidate c; c.kind = kind; c.label = label; c.where = currentLocation();
    if (fpMode) fpModelValues(c, extra.empty() ? 1 : extra[0]); else modelValues(extra, c);
    for (auto& kv : choiceLog) c.values.push_back({kv.first, std::to_string(kv.second)});
    candidates.push_back(c);
}
void symCheck(u64 v, const string& label, u64 stronger) {
    u32 b = ub(v);
    if (replaying()) { if (b > 1 && !(!fpMode && quickBool(b) == 1)) { /* decided on the path that first got here */ }
        // the failing side was reported there; continue on the passing side
        if (b == 0) throw PathEnd{End::Violation, label};
        if (b > 1 && !fpMode && quickBool(b) == 0) throw PathEnd{End::Violation, label};
        return; }
    st.checks++; labelCount[label]++;
    if (b == 1) { st.checksSyntactic++; return; }
    if (!fpMode && b > 1 && quickBool(b) == 1) { st.checksSyntactic++; return; }
    if (b == 0) { addCandidate("check", label, {}); throw PathEnd{End::Violation, label}; }
    if (!fpMode && dirtyModel) { setModelAfterPrefix(); dirtyModel = false; }
    st.checksSolver++;
    u32 n = bNeg(b); int r;
    if (fpMode) r = fpSolve(n, false);
    else { r = solveQ({n}, nullptr, qTimeout * 3); }
    if (r == 1) {
        u32 s = ub(stronger);
        if (!fpMode && s > 1) { u32 ns = bNeg(s); if (solveQ({ns}, nullptr, qTimeout) == 1) n = ns; }
        addCandidate("check", label, {n});
        // a failed check ends the path on the failing side only when it always fails
        if (fpMode ? fpSolve(b, false) == 0 : solveQ({b}, nullptr, qTimeout) == 0) throw PathEnd{End::Violation, label};
    } else if (r < 0) { st.checksUndecided++; undecidedCount[label]++; }
}
// x and y have the same canonical form: let the solver confirm it on the two forms as
// they were computed (bounded number per process; does not depend on the path condition)
void symConfirm(u64 x, u64 y, const string& label) {
    static std::unordered_map<H, bool, HH> seen;
    if (fpMode || replaying() || seen.size() > 150) return;
    u32 p = toPoly(x), q = toPoly(y); if (P[p].t.size() > 60 || P[q].t.size() > 60) return;
    H h = hc(P[p].h, P[q].h); if (!seen.emplace(h, true).second) return;
    std::set<u32> as; atomsOf(p, as); atomsOf(q, as); if (as.size() > 12) return;
    if (zBroken) { zBroken = false; zReset(true); }
    double t0 = now(); st.queries++; zUses++;
    try {
        z3::solver s(*Z); z3::params pr(*Z); pr.set("timeout", 500u); s.set(pr);
        for (u32 a : as) switch (A[a].k) {
            case Atom::INV: s.add(zAtom(a) * zPoly(A[a].arg) == 1); break;
            case Atom::SQRT: s.add(zAtom(a) >= 0); s.add(zAtom(a) * zAtom(a) == zPoly(A[a].arg)); break;
            case Atom::ABS: s.add(zAtom(a) == z3::ite(zPoly(A[a].arg) >= 0, zPoly(A[a].arg), -zPoly(A[a].arg))); break;
            case Atom::OPQ: s.add(zAtom(a) == zPoly(A[a].arg)); break;
            default: break;
        }
        s.add(zPoly(p) != zPoly(q)); auto r = s.check();
        if (r == z3::unsat) st.unsat++; else if (r == z3::unknown) st.unknown++; else { st.sat++; addCandidate("check", label + " (canonical form disputed by the solver)", {}); }
    } catch (z3::exception& e) { st.unknown++; zBroken = true; }
    st.solverTime += now() - t0;
}
void symCover(const string& label) { if (!replaying()) coverCount[label]++; }
void reportEvent(const string& kind, const string& label, bool fatal) {
    if (!replaying()) {
        eventCount[kind + ": " + label]++;
        if (!fpMode && dirtyModel) { setModelAfterPrefix(); dirtyModel = false; }
        addCandidate(kind, label, {});
    }
    if (fatal) throw PathEnd{End::Violation, label};
}
u64 symChoice(const string& name, i64 n) {
    Decision d{};
    if (replaying()) { d = prefix[dpos++]; if (d.kind != 1) { fprintf(stderr, "replay divergence (choice)\n"); throw PathEnd{End::Unsupported, "replay divergence"}; } if (!replaying()) dirtyModel = true; }
    else { d.kind = 1; d.v = 0; for (i64 k = n - 1; k >= 1; k--) { Decision o = d; o.v = k; pushAlt(o); } }
    record(d); if (name[0] != '$') choiceLog.push_back({name, d.v}); return (u64)d.v;
}
// ============================================================ FP mode
static vector<z3::expr>* fpE = nullptr; static vector<z3::expr>* fpB = nullptr; static vector<string>* fpNames = nullptr;
static vector<z3::expr>* fpAssumed = nullptr;
static z3::solver* fpS = nullptr;
void fpClear() { delete fpS; fpS = nullptr; if (fpE) { fpE->clear(); fpB->clear(); fpAssumed->clear(); } }
static z3::sort fpSort() { return Z->fpa_sort(11, 53); }
static u32 fpId(const z3::expr& e) { fpE->push_back(e); return fpE->size() - 1; }
static z3::expr fpVal(u64 v) { if (isSymD(v)) return (*fpE)[boxId(v)]; return Z->fpa_val(asD(v)); }
static u32 fpBoolId(const z3::expr& e) { z3::expr s = e.simplify(); if (s.is_true()) return 1; if (s.is_false()) return 0; fpB->push_back(s); BoolE x; x.k = BoolE::FP; x.p = fpB->size() - 1; x.mask = 0; return mkBool(std::move(x)); }
static z3::expr fpBoolZ(u32 b) { return (*fpB)[B[b].p]; }
static u32 fpNot(u32 b) { return fpBoolId(!fpBoolZ(b)); }
static void fpAssume(u32 b) { if (b == 1) return; fpAssumed->push_back(zBool(b)); }
static z3::solver fpMk() { z3::solver s = z3::tactic(*Z, "qffp").mk_solver(); for (auto& e : *fpAssumed) s.add(e); z3::params p(*Z); p.set("timeout", qTimeout * 4); s.set(p); return s; }
static int fpSolve(u32 extra, bool) {
    if (extra == 0) return 0;
    st.queries++; double t0 = now(); z3::solver s = fpMk(); if (extra != 1) s.add(zBool(extra));
    auto r = s.check(); st.solverTime += now() - t0;
    if (r == z3::sat) { st.sat++; return 1; } if (r == z3::unsat) { st.unsat++; return 0; } st.unknown++; return -1;
}
static int fpFeasible(u32 b) { return fpSolve(b, false); }
static double fpToD(const z3::expr& v) {
    z3::expr bv = z3::expr(*Z, Z3_mk_fpa_to_ieee_bv(*Z, v)).simplify(); u64 u = 0; if (bv.is_numeral_u64(u)) return asD(u); return NAN;
}
static void fpModelValues(Candidate& c, u32 extra) {
    z3::solver s = fpMk(); if (extra > 1) s.add(zBool(extra));
    if (s.check() == z3::sat) { z3::model m = s.get_model(); for (u32 a : inputOrder) { z3::expr v = m.eval((*fpE)[A[a].arg], true); c.values.push_back({A[a].name, hexf(fpToD(v))}); } }
}
static u64 fpArith(int op, u64 a, u64 b) {
    z3::expr x = fpVal(a), y = fpVal(b); z3::expr rm(*Z, Z3_mk_fpa_rne(*Z)); Z3_ast r;
    switch (op) { case 0: r = Z3_mk_fpa_add(*Z, rm, x, y); break; case 1: r = Z3_mk_fpa_sub(*Z, rm, x, y); break; case 2: r = Z3_mk_fpa_mul(*Z, rm, x, y); break; default: r = Z3_mk_fpa_div(*Z, rm, x, y); }
    return boxD(fpId(z3::expr(*Z, r).simplify()));
}
static u64 fpRound(u64 a, int how) {
    z3::expr rm(*Z, how == 0 ? Z3_mk_fpa_rtn(*Z) : how == 1 ? Z3_mk_fpa_rtp(*Z) : how == 2 ? Z3_mk_fpa_rtz(*Z) : how == 4 ? Z3_mk_fpa_rne(*Z) : Z3_mk_fpa_rna(*Z));
    return boxD(fpId(z3::expr(*Z, Z3_mk_fpa_round_to_integral(*Z, rm, fpVal(a)))));
}
static u64 fpCmp(int pred, u64 a, u64 b) {
    z3::expr x = fpVal(a), y = fpVal(b); Z3_ast r;
    switch (pred) { case 0: r = Z3_mk_fpa_eq(*Z, x, y); break; case 2: r = Z3_mk_fpa_lt(*Z, x, y); break; case 3: r = Z3_mk_fpa_leq(*Z, x, y); break; case 4: r = Z3_mk_fpa_gt(*Z, x, y); break; case 5: r = Z3_mk_fpa_geq(*Z, x, y); break; default: return 0; }
    return bx(fpBoolId(z3::expr(*Z, r)));
}
// enumerate the integer value of an FP expression whose value is integral
static double fpConcretise(u64 e) {
    for (int guard = 0; guard < 4096; guard++) {
        double v; Decision d{};
        if (replaying()) { d = prefix[dpos++]; if (d.kind != 1) throw PathEnd{End::Unsupported, "replay divergence"}; v = asD((u64)d.v); record(d); }
        else {
            z3::solver s = fpMk(); st.queries++; double t0 = now(); auto r = s.check(); st.solverTime += now() - t0;
            if (r != z3::sat) throw PathEnd{r == z3::unsat ? End::Infeasible : End::Unsupported, "fp concretise"};
            z3::model m = s.get_model(); v = fpToD(m.eval(fpVal(e), true)); d.kind = 1; d.v = (i64)asU(v); record(d);
        }
        if (decide(fpCmp(0, e, asU(v)))) return v;
    }
    throw PathEnd{End::Limit, "fp concretise"};
}

// ============================================================ double operations (real mode)
static u32 toPoly(u64 v) {
    if (isSymD(v)) return boxId(v);
    return pConst(mpq_class(asD(v)));
}
static u64 fromPoly(u32 p) {
    if (isConst(p)) {
        mpq_class q = constVal(p); double d = q.get_d();
        if (std::isfinite(d) && mpq_class(d) == q) return asU(d);
    }
    return boxD(p);
}
static bool finiteC(u64 v) { return isSymD(v) || std::isfinite(asD(v)); }
string showPoly(u32 p) {
    string s; char buf[64];
    for (auto& t : P[p].t) {
        if (s.size() > 300) { s += " ..."; break; }
        snprintf(buf, 64, "%+.6g", t.second.get_d()); s += buf;
        for (auto& f : M[t.first].v) { const Atom& a = A[f.first]; s += "*"; s += a.k == Atom::INPUT || a.k == Atom::FUN ? a.name : a.k == Atom::INV ? "inv(" + showPoly(a.arg) + ")" : a.k == Atom::SQRT ? "sqrt(" + showPoly(a.arg) + ")" : a.k == Atom::ABS ? "abs(" + showPoly(a.arg) + ")" : "opq" + std::to_string(f.first); if (f.second > 1) s += "^" + std::to_string(f.second); }
    }
    return s.empty() ? "0" : s;
}
string showD(u64 v) { if (isSymD(v)) return fpMode ? "fp#" + std::to_string(boxId(v)) : showPoly(boxId(v)); char b[64]; snprintf(b, 64, "%.17g", asD(v)); return b; }

u64 dAdd(u64 a, u64 b) {
    if (fpMode) return fpArith(0, a, b);
    if (!finiteC(a)) return a; if (!finiteC(b)) return b;
    return fromPoly(pAdd(toPoly(a), toPoly(b)));
}
u64 dNeg(u64 a) { if (fpMode) return boxD(fpId(z3::expr(*Z, Z3_mk_fpa_neg(*Z, fpVal(a))))); return fromPoly(pScale(toPoly(a), -1)); }
u64 dSub(u64 a, u64 b) {
    if (fpMode) return fpArith(1, a, b);
    if (!finiteC(a)) return a; if (!finiteC(b)) return asU(-asD(b));
    return fromPoly(pSub(toPoly(a), toPoly(b)));
}
static u32 cmpLit(u32 p, u8 mask);
u64 dMul(u64 a, u64 b) {
    if (fpMode) return fpArith(2, a, b);
    if (!finiteC(a)) std::swap(a, b);
    if (!finiteC(b)) { // symbolic * inf/nan
        if (std::isnan(asD(b))) return b; u32 p = toPoly(a);
        if (decideB(cmpLit(p, 4))) return b; if (decideB(cmpLit(p, 2))) return asU(NAN); return asU(-asD(b));
    }
    return fromPoly(pMul(toPoly(a), toPoly(b)));
}
// 1/D for a nonzero polynomial
static u32 pInv(u32 d) {
    if (isConst(d)) return pConst(1 / constVal(d));
    u32 mult = pConst(1);
    for (int g = 0; g < 8; g++) { // clear nested inverses
        u32 best = 0; u32 be = 0; for (auto& t : P[d].t) for (auto& f : M[t.first].v) if (A[f.first].k == Atom::INV && (!be || f.first >= best)) { if (f.first > best) be = 0; best = f.first; be = std::max(be, f.second); }
        if (!be) break;
        u32 E = pPow(A[best].arg, be); d = clearInv(d, best, be); mult = pMul(mult, E);
        if (isConst(d)) return pScale(mult, 1 / constVal(d));
    }
    mpq_class lc = P[d].t[0].second; u32 md = pScale(d, 1 / lc); u32 r;
    if (P[md].t.size() == 1) { r = pConst(1); MonoV v = M[P[md].t[0].first].v; for (auto& f : v) { u32 inv = A[f.first].k == Atom::INV ? A[f.first].arg : pAtom(mkAtom(Atom::INV, pAtom(f.first), "")); r = pMul(r, pPow(inv, f.second)); } }
    else r = pAtom(mkAtom(Atom::INV, md, ""));
    return pMul(pScale(r, 1 / lc), mult);
}
// exact multivariate division n/d, verified by multiplication
static bool pExactDiv(u32 n, u32 d, u32& out) {
    if (P[d].t.size() > 60 || P[n].t.size() > 400) return false;
    u32 q = pConst(0), r = n; mpq_class lc = P[d].t[0].second; u32 lm = P[d].t[0].first;
    for (int g = 0; g < 60; g++) {
        if (P[r].t.empty()) { if (pMul(q, d) != n) return false; out = q; return true; }
        MonoV v = M[P[r].t[0].first].v, w; const MonoV h = M[lm].v;
        for (auto& f : h) { bool ok = false; for (auto& x : v) if (x.first == f.first && x.second >= f.second) { x.second -= f.second; ok = true; } if (!ok) return false; }
        for (auto& x : v) if (x.second) w.push_back(x);
        u32 tm = pMono(mkMono(w), P[r].t[0].second / lc), r2 = pSub(r, pMul(tm, d));
        if (!P[r2].t.empty() && !monoLess(P[r2].t[0].first, P[r].t[0].first)) return false;
        q = pAdd(q, tm); r = r2;
    }
    return false;
}
// p = q * (product of inverses): returns q without inverses and collects the inverses
static u32 clearAll(u32 p, vector<std::pair<u32, u32>>& by) {
    for (int g = 0; g < 8; g++) {
        u32 best = 0, be = 0; for (auto& t : P[p].t) for (auto& f : M[t.first].v) if (A[f.first].k == Atom::INV && (!be || f.first >= best)) { if (f.first > best) be = 0; best = f.first; be = std::max(be, f.second); }
        if (!be) break;
        p = clearInv(p, best, be); by.push_back({best, be});
    }
    return p;
}
u64 dDiv(u64 a, u64 b) {
    if (fpMode) return fpArith(3, a, b);
    if (!finiteC(b)) { if (std::isnan(asD(b))) return b; return asU(0.0); }
    u32 d = toPoly(b);
    if (!finiteC(a)) { if (std::isnan(asD(a))) return a; if (decideB(cmpLit(d, 6))) return a; return asU(-asD(a)); }
    u32 n = toPoly(a);
    if (decideB(cmpLit(d, 2))) { // division by zero: IEEE result
        if (decideB(cmpLit(n, 2))) return asU(NAN);
        return asU(decideB(cmpLit(n, 4)) ? INFINITY : -INFINITY);
    }
    if (!isConst(d) && !isConst(n) && P[n].t.size() == P[d].t.size()) { // n = c*d ?
        mpq_class c = P[n].t[0].second / P[d].t[0].second; if (pScale(d, c) == n) return fromPoly(pConst(c));
    }
    if (!isConst(d)) { // does the quotient simplify?
        vector<std::pair<u32, u32>> bn, bd; u32 cn = clearAll(n, bn), cd = clearAll(d, bd), q;
        if (!isConst(cd) && P[cd].t.size() > 1 && pExactDiv(cn, cd, q)) {
            std::map<u32, int> ex; for (auto& x : bn) ex[x.first] += x.second; for (auto& x : bd) ex[x.first] -= x.second;
            for (auto& x : ex) q = pMul(q, x.second > 0 ? pPow(pAtom(x.first), x.second) : pPow(A[x.first].arg, -x.second));
            return fromPoly(q);
        }
    }
    return fromPoly(pMul(n, pInv(d)));
}
u64 dAbs(u64 a) {
    if (fpMode) return boxD(fpId(z3::expr(*Z, Z3_mk_fpa_abs(*Z, fpVal(a)))));
    u32 p = toPoly(a); u8 m = quickMask(p);
    if (!(m & 1)) return fromPoly(p); if (!(m & 4)) return fromPoly(pScale(p, -1));
    mpq_class lc = P[p].t[0].second; u32 md = pScale(p, 1 / lc);
    if (P[md].t.size() == 1) { MonoV v = M[P[md].t[0].first].v; if (v.size() == 1 && v[0].second == 1 && A[v[0].first].k == Atom::INV) return fromPoly(pScale(pInv(toPoly(dAbs(boxD(A[v[0].first].arg)))), abs(lc))); }
    return fromPoly(pScale(pAtom(mkAtom(Atom::ABS, md, "")), abs(lc)));
}
static bool qSqrt(const mpq_class& q, mpq_class& r) {
    if (q < 0) return false; mpz_class n = q.get_num(), d = q.get_den();
    if (!mpz_perfect_square_p(n.get_mpz_t()) || !mpz_perfect_square_p(d.get_mpz_t())) return false;
    r = mpq_class(sqrt(n), sqrt(d)); return true;
}
static bool pSqrt(u32 p, u32& out) { // polynomial square root
    if (isConst(p)) { mpq_class r; if (!qSqrt(constVal(p), r)) return false; out = pConst(r); return true; }
    if (P[p].t.size() > 40) return false;
    auto half = [&](u32 m, u32& h) { MonoV v = M[m].v; for (auto& f : v) { if (f.second % 2) return false; f.second /= 2; } h = mkMono(v); return true; };
    mpq_class lc; u32 hm; if (!qSqrt(P[p].t[0].second, lc) || !half(P[p].t[0].first, hm)) return false;
    u32 q = pMono(hm, lc);
    for (int g = 0; g < 12; g++) {
        u32 r = pSub(p, pMul(q, q)); if (P[r].t.empty()) { out = q; return true; }
        u32 lm = P[r].t[0].first; MonoV v = M[lm].v, h = M[hm].v; MonoV w; 
        for (auto& f : h) { bool ok = false; for (auto& x : v) if (x.first == f.first && x.second >= f.second) { x.second -= f.second; ok = true; } if (!ok) return false; }
        for (auto& x : v) if (x.second) w.push_back(x);
        u32 wm = mkMono(w); if (!monoLess(wm, hm)) return false;
        q = pAdd(q, pMono(wm, P[r].t[0].second / (2 * lc)));
    }
    return false;
}
u64 dSqrt(u64 a) {
    if (fpMode) { z3::expr rm(*Z, Z3_mk_fpa_rne(*Z)); return boxD(fpId(z3::expr(*Z, Z3_mk_fpa_sqrt(*Z, rm, fpVal(a))))); }
    u32 p = toPoly(a);
    if (decideB(cmpLit(p, 1))) return asU(NAN);
    // even-power clear of inverses: sqrt(N/D^2k)
    u32 outer = pConst(1);
    for (int g = 0; g < 8; g++) {
        u32 best = 0, be = 0; for (auto& t : P[p].t) for (auto& f : M[t.first].v) if (A[f.first].k == Atom::INV && (!be || f.first >= best)) { if (f.first > best) be = 0; best = f.first; be = std::max(be, f.second); }
        if (!be) break;
        u32 k = (be + 1) / 2; if (polyDeg(p) + 2 * k * polyDeg(A[best].arg) > 40) break; p = clearInv(p, best, 2 * k); 
        u32 ai = pInv(toPoly(dAbs(boxD(A[best].arg)))); outer = pMul(outer, pPow(ai, k));
    }
    if (isConst(p)) { mpq_class r; if (qSqrt(constVal(p), r)) return fromPoly(pScale(outer, r)); }
    mpq_class lc = P[p].t.empty() ? mpq_class(1) : abs(P[p].t[0].second), r; u32 s;
    if (P[p].t.empty()) return asU(0.0);
    if (pSqrt(p, s)) return fromPoly(pMul(outer, toPoly(dAbs(boxD(s)))));
    if (qSqrt(lc, r)) { if (r != 1) { p = pScale(p, 1 / lc); outer = pScale(outer, r); } }
    return fromPoly(pMul(outer, pAtom(mkAtom(Atom::SQRT, p, ""))));
}
u64 dFun(const char* name, u64 a) {
    if (fpMode) throw PathEnd{End::Unsupported, string("fp function ") + name};
    u32 id = mkAtom(Atom::FUN, toPoly(a), string("$") + name + std::to_string(A.size()));
    return boxD(pAtom(id));
}
static bool hasAbs(u32 p) { for (auto& t : P[p].t) for (auto& f : M[t.first].v) if (A[f.first].k == Atom::ABS) return true; return false; }
static u32 substAtom(u32 p, u32 atom, u32 by) {
    u32 r = pConst(0); PolyV t = P[p].t;
    for (auto& x : t) { MonoV v = M[x.first].v, w; u32 e = 0; for (auto& f : v) if (f.first == atom) e = f.second; else w.push_back(f); u32 m = pMono(mkMono(w), x.second); if (e) m = pMul(m, pPow(by, e)); r = pAdd(r, m); }
    return r;
}
// literal sign(p) in mask; resolves abs atoms and clears denominators
static u32 cmpLit(u32 p, u8 mask) {
    for (int g = 0; g < 64; g++) {
        if (isConst(p)) return bLit(p, mask);
        if (!hasAbs(p)) break;
        // c*|q| + k
        if (P[p].t.size() <= 2 && (P[p].t.size() == 1 || P[p].t[1].first == 0)) {
            MonoV v = M[P[p].t[0].first].v;
            if (v.size() == 1 && v[0].second == 1 && A[v[0].first].k == Atom::ABS) {
                mpq_class c = P[p].t[0].second, k = P[p].t.size() == 2 ? P[p].t[1].second : mpq_class(0), th = -k / c; u32 q = A[v[0].first].arg;
                u8 m = mask; if (c < 0) m = (mask & 2) | ((mask & 1) << 2) | ((mask & 4) >> 2); // sign(|q|-th) in m
                if (th < 0) return (m & 4) ? 1 : 0;
                vector<u32> alt;
                u32 qm = pSub(q, pConst(th)), qp = pAdd(q, pConst(th));
                if (th == 0) { u8 mm = 0; if (m & 2) mm |= 2; if (m & 4) mm |= 5; return cmpLit(q, mm); }
                if (m == 1) return bNary(BoolE::AND, {cmpLit(qm, 1), cmpLit(qp, 4)});
                if (m == 3) return bNary(BoolE::AND, {cmpLit(qm, 3), cmpLit(qp, 6)});
                if (m == 4) return bNary(BoolE::OR, {cmpLit(qm, 4), cmpLit(qp, 1)});
                if (m == 6) return bNary(BoolE::OR, {cmpLit(qm, 6), cmpLit(qp, 3)});
                if (m == 2) return bNary(BoolE::OR, {cmpLit(qm, 2), cmpLit(qp, 2)});
                return bNary(BoolE::AND, {cmpLit(qm, 5), cmpLit(qp, 5)});
            }
        }
        u32 at = 0; for (auto& t : P[p].t) for (auto& f : M[t.first].v) if (A[f.first].k == Atom::ABS && f.first > at) at = f.first;
        u32 q = A[at].arg; bool pos = decideB(cmpLit(q, 6));
        p = substAtom(p, at, pos ? q : pScale(q, -1));
    }
    for (int g = 0; g < 16; g++) {
        u32 best = 0, be = 0; for (auto& t : P[p].t) for (auto& f : M[t.first].v) if (A[f.first].k == Atom::INV && (!be || f.first >= best)) { if (f.first > best) be = 0; best = f.first; be = std::max(be, f.second); }
        if (!be) break;
        u32 D = A[best].arg; u32 k = be;
        if (k % 2) {
            u8 s = quickMask(D);
            if (!(s & 1)) {} else if (!(s & 4)) mask = (mask & 2) | ((mask & 1) << 2) | ((mask & 4) >> 2); else k++;
        }
        if (polyDeg(p) + k * polyDeg(D) > 90) break; // left to the solver as a quotient
        p = clearInv(p, best, k); if (isConst(p)) return bLit(p, mask);
        if (hasAbs(p)) return cmpLit(p, mask);
    }
    return bLit(p, mask);
}
u64 dCmp(int pred, bool unordered, u64 a, u64 b) {
    if (pred == 6) return 1; if (pred == 7) return 0;
    if (fpMode) { if (pred == 1) { return bNot(fpCmp(0, a, b)); } if (unordered) { int inv = pred == 2 ? 5 : pred == 3 ? 4 : pred == 4 ? 3 : pred == 5 ? 2 : 0; if (pred != 0) return bNot(fpCmp(inv, a, b)); } return fpCmp(pred, a, b); }
    if (!finiteC(a) || !finiteC(b)) {
        double x = isSymD(a) ? 0 : asD(a), y = isSymD(b) ? 0 : asD(b);
        if (std::isnan(x) || std::isnan(y)) return unordered || pred == 1 ? 1 : 0;
        switch (pred) { case 0: return x == y; case 1: return x != y; case 2: return x < y; case 3: return x <= y; case 4: return x > y; default: return x >= y; }
    }
    static const u8 masks[6] = {2, 5, 1, 3, 4, 6};
    return bx(cmpLit(pSub(toPoly(a), toPoly(b)), masks[pred]));
}
static mpz_class qFloor(const mpq_class& q) { mpz_class r; mpz_fdiv_q(r.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); return r; }
u64 dFloor(u64 a, int how) {
    if (fpMode) { return fpRound(a, how); }
    u32 p = toPoly(a);
    if (how == 2) { if (decideB(cmpLit(p, 6))) how = 0; else how = 1; }
    if (how == 3) { if (decideB(cmpLit(p, 6))) { p = pAdd(p, pConst(mpq_class(1, 2))); how = 0; } else { p = pSub(p, pConst(mpq_class(1, 2))); how = 1; } }
    for (int guard = 0; guard < 10000; guard++) {
        i64 v; Decision d{};
        if (replaying()) { d = prefix[dpos++]; if (d.kind != 1) throw PathEnd{End::Unsupported, "replay divergence"}; v = d.v; record(d); if (!replaying()) dirtyModel = true; }
        else {
            if (dirtyModel) { setModelAfterPrefix(); dirtyModel = false; }
            mpf_class x = evalPoly(p), f(0, 192); if (how == 0) f = floor(x); else f = ceil(x); v = f.get_si();
            mpf_class nr = floor(x + 0.5), df = x - nr; if (abs(df) < 1e-30) v = nr.get_si() + (guard % 2 ? (how == 0 ? -1 : 1) : 0); // the evaluation is rounded: try both sides
            d.kind = 1; d.v = v; record(d);
        }
        u32 c = how == 0 ? bNary(BoolE::AND, {cmpLit(pSub(p, pConst(v)), 6), cmpLit(pSub(p, pConst(v + 1)), 1)})
                         : bNary(BoolE::AND, {cmpLit(pSub(p, pConst(v)), 3), cmpLit(pSub(p, pConst(v - 1)), 4)});
        if (decideB(c)) return asU((double)v);
        if (!replaying()) { // need a model on this side
            Model m2 = curModel; dirtyModel = true;
        }
    }
    if (getenv("SX_VERBOSE")) fprintf(stderr, "floor: %s how %d x=%s at %s\n", showD(boxD(p)).c_str(), how, showD(asU(evalPoly(p).get_d())).c_str(), currentLocation().c_str());
    throw PathEnd{End::Limit, "floor enumeration"};
}
u64 dNearest(u64 a) { // nearest integer, ties to even
    if (fpMode) return fpRound(a, 4);
    u64 h = dAdd(a, asU(0.5)), r = dFloor(h, 0); double v = asD(r);
    if (((i64)v & 1) && decide(dCmp(0, false, h, r))) return asU(v - 1);
    return r;
}
i64 dToInt(u64 a) {
    if (fpMode) { u64 r = fpRound(a, 2); return (i64)fpConcretise(r); }
    return (i64)asD(dFloor(a, 2));
}
u64 symInput(const string& name, double lo, double hi) {
    if (fpMode) {
        z3::expr v = Z->constant(name.c_str(), fpSort()); u32 id = fpId(v);
        u32 a = mkAtom(Atom::INPUT, 0, name); A[a].arg = id; inputOrder.push_back(a);
        fpAssumed->push_back(z3::expr(*Z, Z3_mk_fpa_geq(*Z, v, Z->fpa_val(lo)))); fpAssumed->push_back(z3::expr(*Z, Z3_mk_fpa_leq(*Z, v, Z->fpa_val(hi))));
        return boxD(id);
    }
    u32 a = mkAtom(Atom::INPUT, 0, name); A[a].lo = mpq_class(lo); A[a].hi = mpq_class(hi); inputOrder.push_back(a);
    u32 p = pAtom(a);
    ineqPush(p, -A[a].lo, 6); ineqPush(p, -A[a].hi, 3);
    // spread the initial model values to avoid degenerate coincidences
    H h = A[a].h; mpq_class f((long)(h.a % 1021) + 1, 1023L); f.canonicalize();
    curModel[a] = A[a].lo + (A[a].hi - A[a].lo) * f;
    return boxD(p);
}
double magnitude(u64 x) { Iv r = ivPoly(toPoly(x)); if (r.nl || r.nh) return 1e9; mpq_class m = abs(r.lo) > abs(r.hi) ? abs(r.lo) : abs(r.hi); return m.get_d() * 1.0000001; }
u64 symRounded(u64 x, double tol) {
    static const char* nm = "$r"; string name = nm + std::to_string(A.size());
    u32 a = mkAtom(Atom::INPUT, 0, name); A[a].lo = -1e9; A[a].hi = 1e9; inputOrder.push_back(a);
    u32 p = pAtom(a); u32 d = pSub(p, toPoly(x));
    mpq_class t(tol);
    symAssume(bx(bNary(BoolE::AND, {bLit(pSub(d, pConst(t)), 3), bLit(pAdd(d, pConst(t)), 6)})));
    return boxD(p);
}
u64 dRound32(u64 a) { // real mode: any value within 2^-24 of it, relatively
    if (fpMode) {
        z3::expr rm(*Z, Z3_mk_fpa_rne(*Z)); z3::sort s32(*Z, Z3_mk_fpa_sort_32(*Z)), s64(*Z, Z3_mk_fpa_sort_64(*Z));
        z3::expr t(*Z, Z3_mk_fpa_to_fp_float(*Z, rm, fpVal(a), s32)); return boxD(fpId(z3::expr(*Z, Z3_mk_fpa_to_fp_float(*Z, rm, t, s64)).simplify()));
    }
    Iv r = ivPoly(toPoly(a));
    if ((r.nl || r.nh) && (!decide(dCmp(3, false, a, asU(1e9))) || !decide(dCmp(5, false, a, asU(-1e9))))) throw PathEnd{End::Unsupported, "single precision of an unbounded value"};
    u64 ro = symRounded(a, magnitude(a) / 16777216.0 + 1e-45), d = dSub(ro, a), t = dMul(dAbs(a), asU(ldexp(1, -24))); t = dAdd(t, asU(ldexp(1, -149)));
    symAssume(bAnd(dCmp(3, false, d, t), dCmp(5, false, d, dNeg(t)))); return ro;
}
void rtBeginPath(const Prefix& pf) {
    A.clear(); M.clear(); P.clear(); B.clear(); atomIx.clear(); monoIx.clear(); polyIx.clear(); boolIx.clear(); mmCache.clear(); mulCache.clear(); uniMemo.clear();
    facts.clear(); extraPC.clear(); curModel.clear(); inputOrder.clear(); choiceLog.clear(); trace.clear(); evalState.clear(); evalCache.clear(); ivDepth = 0;
    M.push_back({{}, 0, hs(77), 0}); monoIx[M[0].h] = 0;
    BoolE f; f.k = BoolE::FP; f.p = 0; f.mask = 0; f.h = hs(31); B.push_back(f); f.h = hs(32); B.push_back(f);
    prefix = pf; dpos = 0; dirtyModel = !pf.empty();
    zReset(false); 
    if (!fpE) { fpE = new vector<z3::expr>; fpB = new vector<z3::expr>; fpAssumed = new vector<z3::expr>; }
    fpE->clear(); fpB->clear(); fpAssumed->clear();
    evalReset(&curModel);
}
void rtEndPath() {}
