// C09: distances after reinitialisation away from the front.
#include "lib.h"
static std::vector<double> reinit(unsigned w, unsigned h, const std::vector<double>& f) {
    LevelSet ls(w, h, noHoles, 0.5, 6, false); ls.signedDistance = f; ls.reinitialise(); return ls.signedDistance;
}
// exact distances of axis-aligned fronts: one line, a bar or slot with two edges
static void planes() {
    unsigned w = sym_param("W", 7), h = sym_param("H", 1); int axis = sym_choice("axis", -1, 2), sh = sym_choice("shape", -1, 2), flip = sym_choice("flip", -1, 2);
    unsigned L = w; if (axis) std::swap(w, h);
    double s = sym_double("s", -1, 0.125, L - 0.125), gap = sh ? (sym_choice("gap", -1, 2) ? 2.375 : 2.875) : 1, sc = sh ? 1 : sym_choice("scale", -1, 2) ? 4 : 0.25;
    Mesh m(w, h); std::vector<double> f(m.nNodes), e(m.nNodes); bool pos = false, neg = false;
    for (unsigned i = 0; i < m.nNodes; i++) {
        double c = axis ? m.nodes[i].coord.y : m.nodes[i].coord.x, d = c - s;
        if (sh == 1) { double d2 = s + gap - c; d = d < d2 ? d : d2; } // positive between s and s+gap
        e[i] = flip ? -d : d; f[i] = e[i]; if (f[i] > 0) pos = true; if (f[i] < 0) neg = true;
        f[i] *= sc;
    }
    // the far side of a linear piece decides the crossing: keep the pieces linear across the front
    if (sh == 1) { for (unsigned i = 0; i < m.nNodes; i++) { double c = axis ? m.nodes[i].coord.y : m.nodes[i].coord.x; f[i] = (c - s) * (s + gap - c) ; if (flip) f[i] = -f[i]; } }
    sym_assume(pos && neg);
    std::vector<double> u = reinit(w, h, f);
    for (unsigned i = 0; i < m.nNodes; i++) {
        double x = e[i];
        if (sh == 1) { // expected: distance to the nearest linear crossing
            double c = axis ? m.nodes[i].coord.y : m.nodes[i].coord.x, best = -1;
            for (unsigned j = 0; j < L; j++) { double a = (j - s) * (s + gap - j), b = (j + 1 - s) * (s + gap - (j + 1)), X; if (a == 0) X = j; else if (b == 0) X = j + 1; else if ((a < 0) != (b < 0)) X = j + a / (a - b); else continue; double d = std::fabs(c - X); if (best < 0 || d < best) best = d; }
            x = f[i] < 0 ? -best : best; if (f[i] == 0) x = 0;
        }
        sym_near(u[i], x, 1e-9, "exact distance from a straight front");
    }
    sym_cover(sh ? "bar" : "line");
}
// arbitrary fields: signs, monotonicity and the local equation
static void fields() {
    unsigned w = sym_param("W", 2), h = sym_param("H", 2), nsym = sym_param("NSYM", 1);
    Mesh m(w, h); unsigned N = m.nNodes; std::vector<double> f(N), g(N); bool pos = false, neg = false, zero = false;
    unsigned off = sym_choice("off", -1, N); int pat = sym_choice("pat", -1, sym_param("PATS", 6));
    static const unsigned P[] = {0x1, 0x3, 0x10, 0x8, 0x7, 0x11, 0x24, 0x42}; const bool narrow = sym_param("NARROW", 0) != 0; // all values distinct, and far enough apart that the order is clear
    const double lo = narrow ? 0.40625 : 0.0625, hi = narrow ? 0.421875 : 1.5;
    for (unsigned j = 0; j < N; j++) { unsigned i = (j + off) % N;
        bool n = (P[pat] >> i) & 1; double v = j < nsym ? sym_double("f", i, lo, hi) : narrow ? 0.5 + 0.03125 * (i * 5 % 7) : 0.5; f[i] = n ? -v : v; g[i] = -f[i]; }
    std::vector<double> u = reinit(w, h, f), v = reinit(w, h, g);
    bool causal = true; std::vector<double> res, out; // a node frozen before a neighbour that ends up nearer: the scheme leaves its order open
    for (unsigned i = 0; i < N; i++) {
        sym_near(v[i], -u[i], 1e-9, "negated field, negated distance");
        bool front = f[i] == 0; double best = -1;
        for (int k = 0; k < 4; k++) { unsigned n = m.nodes[i].neighbours[k]; if (n >= N) continue; if (sgn(f[n]) * sgn(f[i]) < 0) front = true; double a = std::fabs(u[n]); if (best < 0 || a < best) best = a; }
        if (front) continue;
        sym_check(best < std::fabs(u[i]), "farther than its closest neighbour"); sym_check(std::fabs(u[i]) <= best + 1 + 1e-9, "at most one spacing farther than its closest neighbour");
        sym_cover("away");
        // the upwind difference equation: in each direction the nearer of the two neighbours that are nearer
        // to the front than this node, to second order if the node behind it is nearer still
        double T = std::fabs(u[i]), sg = f[i] > 0 ? 1 : -1, A = 0, B = 0, C = -1; bool clear = true; const double eps = 1e-9; std::vector<double> later;
        for (int dim = 0; dim < 2; dim++) {
            double a1 = 0; int k1 = -1;
            for (int k = 2 * dim; k < 2 * dim + 2; k++) {
                unsigned n = m.nodes[i].neighbours[k]; if (n >= N) continue; double a = std::fabs(u[n]);
                if (sym_fork(sym_lt(T + eps, a))) { later.push_back(a); continue; }
                if (sym_fork(sym_lt(T - eps, a))) { clear = false; continue; } // too close to call
                if (k1 >= 0) { if (sym_fork(sym_lt(a1 + eps, a))) continue; if (sym_fork(sym_lt(a1 - eps, a))) clear = false; }
                a1 = a; k1 = k;
            }
            if (k1 < 0) continue;
            unsigned n1 = m.nodes[i].neighbours[k1], n2 = m.nodes[n1].neighbours[k1]; double d1 = sg * u[n1]; bool second = false;
            if (n2 < N) { double a2 = std::fabs(u[n2]); if (sym_fork(sym_lt(a2, a1 - eps))) second = true; else if (sym_fork(sym_lt(a2, a1 + eps))) clear = false; }
            if (second) { double tp = (4 * d1 - sg * u[n2]) / 3; A += 2.25; B -= 4.5 * tp; C += 2.25 * tp * tp; } else { A += 1; B -= 2 * d1; C += d1 * d1; }
        }
        if (A == 0 || !sym_fork(sym_lt(1e-9, B * B - 4 * A * C))) continue;
        for (double a : later) if (sym_fork(sym_or(sym_le(A * a * a + B * a + C, eps), sym_le(2 * A * a, -B + eps)))) causal = false;
        if (clear) { res.push_back(A * T * T + B * T + C); out.push_back(2 * A * T + B); }
    }
    if (causal) for (unsigned i = 0; i < res.size(); i++) { sym_near(res[i], 0, 1e-7, "upwind difference equation"); sym_check(sym_le(-1e-7, out[i]), "outward root"); sym_cover("equation"); }
}
extern "C" void sym_main() { if (sym_param("MODE", 0) == 0) planes(); else fields(); }
