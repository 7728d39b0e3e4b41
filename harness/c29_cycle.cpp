// C29: one whole cycle from an arbitrary field, then a second look at the result.
// Memory errors and uninitialised reads are reported by the executor itself.
#include "lib.h"
static bool hasFront(const LevelSet& l) { const Mesh& m = l.mesh; for (unsigned i = 0; i < m.nNodes; i++) { if (m.nodes[i].isMasked) continue; double f = l.signedDistance[i]; if (sym_fork(sym_eq(f, 0))) return true; for (int j = 0; j < 4; j++) { unsigned n = m.nodes[i].neighbours[j]; if (n < m.nNodes && !m.nodes[n].isMasked && sym_fork(sym_lt(f * l.signedDistance[n], 0))) return true; } } return false; }
static double lengthOf(const BoundaryPoint& p) { return p.length; }
extern "C" void sym_main() {
    unsigned w = sym_param("W", 2), h = sym_param("H", 1); int mode = sym_param("MODE", 0), zeros = sym_param("ZEROS", 0), fx = sym_param("FIXED", 1); bool fixed = fx && sym_choice("fixed", -1, 2);
    LevelSet ls(w, h, noHoles, 0.5, sym_param("BW", 3), fixed); Mesh& m = ls.mesh; unsigned N = m.nNodes;
    int freeNode = sym_param("FREE", 1) ? sym_choice("free", -1, sym_param("NFREE", N)) : -1;
    static const double mag[7] = {0.5, 1.25, 0.75, 2.25, 0.375, 1, 3.5};
    for (unsigned i = 0; i < N; i++) {
        double x = m.nodes[i].coord.x, y = m.nodes[i].coord.y, v;
        if (mode == 0) { int s = (int)i == freeNode ? 0 : sym_choice("sign", i, zeros ? 3 : 2); v = s == 2 ? 0 : (s ? -1 : 1) * mag[(i * 3) % 7]; if ((int)i == freeNode) v = sym_double("f", -1, -2, 2); }
        else if (mode == 1) { int k = i == 0 ? sym_choice("shape", -1, 5) : -1; static int shape; if (k >= 0) shape = k; v = shape == 0 ? x - 1.5 : shape == 1 ? 1.25 - std::sqrt((x - 2) * (x - 2) + (y - 2) * (y - 2)) : shape == 2 ? ((int)(x + y) & 1 ? 0.5 : -0.5) : shape == 3 ? ((int)x & 1 ? 1.25 : -0.75) : (x - 1) * (y - 1) * 0.5 - 0.25; if ((int)i == freeNode) v = sym_double("f", -1, -2, 2); }
        else { static double off; if (i == 0) off = sym_double("f", -1, -0.1875, 0.1875); double mid = 0.5 * w; v = std::fabs(x - mid) - 2.75 + off; }     // a third of the nodes are mines
        ls.signedDistance[i] = v;
    }
    if (mode == 1 && sym_choice("mask", -1, 2)) { sym_expect_exit(1); ls.mask(std::vector<Hole>(1, Hole(1, 1, 0.625))); }
    int symv = sym_param("SYMV", 1), half = sym_param("HALF", 0); bool reinitFirst = half ? half == 2 : mode == 2 || sym_choice("reinitialise first", -1, 2);
    if (reinitFirst) { sym_expect_exit(!hasFront(ls)); ls.reinitialise(); sym_expect_exit(0); sym_cover("reinitialised"); if (mode == 2) { unsigned k = 0; for (unsigned i = 0; i < N; i++) k += m.nodes[i].isMine; sym_check(k == ls.nMines, "mines counted"); for (unsigned i = 0; i < ls.nMines; i++) sym_check(m.nodes[ls.mines[i]].isMine, "mines listed"); if (k > N / 5) sym_cover("crowded"); } }
    Boundary b; b.discretise(ls, false); double area = ls.computeAreaFractions(b); if (half != 2) b.computeNormalVectors(ls); sym_check(sym_isfinite(area), "area finite");
    for (unsigned i = 0; i < b.nPoints; i++) { b.points[i].velocity = 0.25 * ((int)(i % 5) - 2) + (i == 0 && symv ? sym_double("v", -1, -4, 4) : 0); sym_check(sym_isfinite(b.points[i].length) && sym_isfinite(b.computePerimeter(b.points[i])), "lengths finite"); }
    sym_expect_exit(!hasFront(ls)); ls.computeVelocities(b.points); ls.computeGradients(); sym_expect_exit(0); if (!half) ls.update(sym_choice("dt", -1, 2) ? 0.5 : 0.0625); sym_expect_exit(0);
    for (unsigned i = 0; i < N; i++) { sym_check(sym_isfinite(ls.signedDistance[i]), "field finite"); sym_check(sym_isfinite(ls.velocity[i]), "velocity finite"); sym_check(sym_isfinite(ls.gradient[i]), "gradient finite"); }
    if (!half) sym_cover("updated"); if (half) { sym_cover("cycled"); return; }
    int after = sym_param("AFTER", 2); if (after > 0) b.discretise(ls, false); if (after > 1) ls.computeAreaFractions(b); sym_check(b.nPoints == b.points.size() && b.nSegments == b.segments.size(), "counts agree"); sym_cover("cycled"); (void)lengthOf;
    if (after > 1) b.computeNormalVectors(ls); if (sym_param("AGAIN", 0)) { sym_expect_exit(!hasFront(ls)); ls.reinitialise(); sym_expect_exit(0); for (unsigned i = 0; i < N; i++) sym_check(sym_isfinite(ls.signedDistance[i]), "field finite"); sym_cover("again"); }
    
}
