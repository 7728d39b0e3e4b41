// C11: upwind gradient magnitude. MODE 0 planes, 1 symmetry, 2 WENO reference.
#include "lib.h"
static void activate(LevelSet& ls) { ls.nNarrowBand = 0; for (unsigned i = 0; i < ls.mesh.nNodes; i++) { ls.mesh.nodes[i].isActive = true; ls.narrowBand[ls.nNarrowBand++] = i; } }
static double weno(double a, double b, double c, double d, double e) { // fifth order one-sided derivative from five differences, upwind side first
    const double t = 13.0 / 12.0, q = 0.25, eps = 1e-6; double A = a - 2 * b + c, B = b - 2 * c + d, C = c - 2 * d + e, P = a - 4 * b + 3 * c, Q = b - d, S = 3 * c - 4 * d + e;
    double s1 = t * A * A + q * P * P, s2 = t * B * B + q * Q * Q, s3 = t * C * C + q * S * S;
    double w1 = 0.1 / ((s1 + eps) * (s1 + eps)), w2 = 0.6 / ((s2 + eps) * (s2 + eps)), w3 = 0.3 / ((s3 + eps) * (s3 + eps)), W = w1 + w2 + w3;
    return (w1 / W * (2 * a - 7 * b + 11 * c) + w2 / W * (5 * c - b + 2 * d) + w3 / W * (2 * c + 5 * d - e)) * (1.0 / 6.0);
}
extern "C" void sym_main() {
    unsigned w = sym_param("W", 5), h = sym_param("H", 4); int mode = sym_param("MODE", 0), small = sym_param("SMALL", 0);
    if (small) { w = 1 + sym_choice("w", -1, 3); h = 1 + sym_choice("h", -1, 3); }
    LevelSet ls(w, h, noHoles, 0.5, 6, false); Mesh& m = ls.mesh; activate(ls);
    int neg = sym_choice("inward", -1, 3); double v = neg == 2 ? 0.0 : neg ? -0.75 : 1.25;
    for (unsigned i = 0; i < m.nNodes; i++) ls.velocity[i] = v;
    if (mode == 0) {
        double a = sym_double("a", -1, -2, 2), b = sym_double("b", -1, -2, 2), c = sym_double("c", -1, -4, 4); int fl = sym_choice("flat", -1, 3); if (fl == 1) a = 0; if (fl == 2) b = 0;
        for (unsigned i = 0; i < m.nNodes; i++) ls.signedDistance[i] = a * m.nodes[i].coord.x + b * m.nodes[i].coord.y + c;
        unsigned off = sym_choice("off", -1, m.nNodes); // one node outside the band
        ls.nNarrowBand = 0; m.nodes[off].isActive = false; for (unsigned i = 0; i < m.nNodes; i++) if (i != off) ls.narrowBand[ls.nNarrowBand++] = i;
        for (unsigned i = 0; i < m.nNodes; i++) ls.gradient[i] = 7; // left over from an earlier step
        ls.computeGradients();
        for (unsigned i = 0; i < m.nNodes; i++) {
            double g = ls.gradient[i]; if (i == off) { sym_check(sym_eq(g, 0), "zero outside the band"); continue; }
            sym_check(sym_le(0, g), "not negative"); sym_near(g * g, a * a + b * b, 1e-9, "norm of the slope"); sym_cover("plane");
        }
        return;
    }
    // a wavy concrete field plus any plane, gradient at any node
    int pat = sym_choice("field", -1, sym_param("FIELDS", 3)); unsigned at = sym_choice("at", -1, m.nNodes); double a = sym_double("a", -1, -2, 2), b = sym_double("b", -1, -2, 2);
    std::vector<double> f(m.nNodes);
    for (unsigned i = 0; i < m.nNodes; i++) { double x = m.nodes[i].coord.x, y = m.nodes[i].coord.y; unsigned hsh = (i * 2654435761u) >> 27; f[i] = (pat == 0 ? (x - 1.5) * (x - 1.5) * 0.25 - y * y * 0.125 : pat == 1 ? 0.0625 * hsh : (x - 2) * (y - 1.25) * 0.5 * (i % 3)) + a * x + b * y; }
    if (mode == 1) {
        std::vector<double> g; int op = sym_choice("op", -1, 4); // mirror x, mirror y, transpose, negate
        LevelSet lt(op == 2 ? h : w, op == 2 ? w : h, noHoles, 0.5, 6, false); activate(lt);
        std::vector<unsigned> map(m.nNodes);
        for (unsigned i = 0; i < m.nNodes; i++) { unsigned x = m.nodes[i].coord.x, y = m.nodes[i].coord.y; map[i] = op == 0 ? m.xyToIndex[w - x][y] : op == 1 ? m.xyToIndex[x][h - y] : op == 2 ? lt.mesh.xyToIndex[y][x] : i; }
        for (unsigned i = 0; i < m.nNodes; i++) { ls.signedDistance[i] = f[i]; lt.signedDistance[map[i]] = op == 3 ? -f[i] : f[i]; double vv = neg == 2 ? 1.0 : v; ls.velocity[i] = vv; lt.velocity[map[i]] = op == 3 ? -vv : vv; }
        ls.nNarrowBand = lt.nNarrowBand = 1; ls.narrowBand[0] = at; lt.narrowBand[0] = map[at];
        ls.computeGradients(); lt.computeGradients();
        sym_near(ls.gradient[at] * ls.gradient[at], lt.gradient[map[at]] * lt.gradient[map[at]], 1e-7, "gradient moves with the field"); sym_check(sym_le(0, ls.gradient[at]), "not negative"); sym_cover("symmetric");
        return;
    }
    for (unsigned i = 0; i < m.nNodes; i++) ls.signedDistance[i] = f[i];
    ls.nNarrowBand = 1; ls.narrowBand[0] = at; ls.computeGradients();
    unsigned x = m.nodes[at].coord.x, y = m.nodes[at].coord.y;
    if ((x == 0 || x == w) && (y == 0 || y == h)) return; // corners may use the diagonal instead
    double grad2 = 0; int s = v < 0 ? -1 : 1;
    for (int d = 0; d < 2; d++) {
        int n = d ? h : w, c = d ? y : x; double D[8]; // differences c-3 .. c+2, copied outwards beyond the edges
        for (int k = -3; k <= 2; k++) { int j = std::min(std::max(c + k, 0), n - 1); D[k + 3] = d ? f[m.xyToIndex[x][j + 1]] - f[m.xyToIndex[x][j]] : f[m.xyToIndex[j + 1][y]] - f[m.xyToIndex[j][y]]; }
        double lo = s * weno(D[0], D[1], D[2], D[3], D[4]), hi = s * weno(D[5], D[4], D[3], D[2], D[1]);
        if (lo > 0) grad2 += lo * lo; if (hi < 0) grad2 += hi * hi;
    }
    sym_near(ls.gradient[at] * ls.gradient[at], grad2, 1e-6, "upwind combination of the one-sided derivatives"); sym_cover("reference");
}
