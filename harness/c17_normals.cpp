// C17: normals on planar fronts of any listed direction and every offset; unit length on
// arbitrary monotone fields.
#include "lib.h"
extern "C" void sym_main() {
    unsigned w = sym_param("W", 3), h = sym_param("H", 3); int mode = sym_param("MODE", 0);
    LevelSet ls(w, h, noHoles, 0.5, 6, false); Mesh& m = ls.mesh;
    static const double D[8][2] = {{1, 0}, {0, 1}, {0.75, 1}, {0.5, 0.5}, {1.5, 0.25}, {0.25, 1.125}, {0.875, 0.625}, {1, 0.0625}}; // dyadic: nodal gradients are exact
    double a = 0, b0 = 0; bool big = false;
    if (mode == 0) { // concrete slope, every offset
        int k = sym_choice("dir", -1, sym_param("DIRS", 8)), f = sym_choice("flip", -1, 4); a = D[k][0] * (f & 1 ? -1 : 1); b0 = D[k][1] * (f & 2 ? -1 : 1);
        const double sc = std::ldexp(1.0, -sym_param("SHALLOW", 0)); a *= sc; b0 *= sc;
        double lo = minOf(0, a) * w + minOf(0, b0) * h, hi = a * w + b0 * h - lo;
        double c = sym_double("c", -1, lo, hi);
        for (unsigned i = 0; i < m.nNodes; i++) ls.signedDistance[i] = a * m.nodes[i].coord.x + b0 * m.nodes[i].coord.y - c;
    } else if (mode == 1) { // every slope of a cone of directions, concrete offsets
        a = sym_double("a", -1, 0.25, 2); b0 = 0.25 + 0.75 * sym_choice("b", -1, 3); double c = 0.625 + 0.875 * sym_choice("off", -1, 3);
        for (unsigned i = 0; i < m.nNodes; i++) ls.signedDistance[i] = a * (m.nodes[i].coord.x - c) + b0 * (m.nodes[i].coord.y - 0.625);
    } else { // a tilted or flat-sided field with one arbitrary node
        double tilt = 0.25 * sym_choice("tilt", -1, 2);
        for (unsigned i = 0; i < m.nNodes; i++) ls.signedDistance[i] = (m.nodes[i].coord.x - 1.375) * 0.875 + tilt * (m.nodes[i].coord.y - 1);
        unsigned p = sym_choice("node", -1, m.nNodes); big = sym_choice("big", -1, 2); double t = big ? sym_double("t", -1, -2, 2) : sym_double("t", -1, -0.3, 0.3); ls.signedDistance[p] += t;
    }
    Boundary b; b.discretise(ls, false); for (unsigned i = 0; i < b.nPoints; i++) { b.points[i].normal.x = 0.75; b.points[i].normal.y = -0.5 - i; } /* left over */ b.computeNormalVectors(ls);
    for (unsigned i = 0; i < b.nPoints; i++) {
        double nx = b.points[i].normal.x, ny = b.points[i].normal.y;
        if (nx == 0 && ny == 0 && big) continue; // no direction defined (all gradients vanish)
        sym_near(nx * nx + ny * ny, 1, 1e-6, "unit length");
        if (mode < 2) {
            sym_near((nx * b0 - ny * a) * std::ldexp(1.0, sym_param("SHALLOW", 0)), 0, 1e-6, "parallel to the gradient");
            sym_check(sym_lt(0, nx * a + ny * b0), "points into the structure");
        } else if (!big) sym_check(sym_lt(0, nx), "points into the structure");
        sym_cover("normal");
    }
    sym_cover("done");
}
