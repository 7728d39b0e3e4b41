// C04: the field built from circular holes, arbitrary centre and radius.
#include "lib.h"
extern "C" void sym_main() {
    unsigned M = sym_param("MAX", 3), n = sym_choice("holes", -1, 4); // none to three holes
    unsigned w = n ? sym_param("W", 2) : 1 + sym_choice("w", -1, M), h = n ? sym_param("H", 2) : 1 + sym_choice("h", -1, M);
    std::vector<Hole> H; std::vector<double> X, Y, R;
    if (n > 0) { X.push_back(sym_double("cx", 0, -1, w + 1.0)); Y.push_back(sym_param("CY", 0) ? sym_double("cy", 0, -1, h + 1.0) : -0.375 + 0.75 * sym_choice("cyi", -1, 4)); R.push_back(sym_double("r", 0, 0.0625, 3)); }
    if (n > 1) { X.push_back(1.25); Y.push_back(0.5); R.push_back(sym_param("CY", 0) || n > 2 ? 0.75 : sym_double("r", 1, 0.0625, 3)); }
    if (n > 2) { X.push_back(0.25); Y.push_back(1.625); R.push_back(0.375); }
    bool swap = n > 1 && sym_choice("swap", -1, 2) == 1;
    for (unsigned j = 0; j < n; j++) { unsigned k = swap ? n - 1 - j : j; if (j & 1) { Coord c; c.x = X[k]; c.y = Y[k]; H.push_back(Hole(c, R[k])); } else H.push_back(Hole(X[k], Y[k], R[k])); }
    LevelSet ls(w, h, H, 0.5, 6, false);
    for (unsigned i = 0; i < ls.mesh.nNodes; i++) {
        double x = ls.mesh.nodes[i].coord.x, y = ls.mesh.nodes[i].coord.y, v = ls.signedDistance[i];
        double e = minOf(minOf(x, w - x), minOf(y, h - y)); const bool exact = sym_symbolic(); // a replay computes with rounding
        bool hit = exact ? sym_eq(v, e) : std::fabs(v - e) < 1e-12;
        sym_check(sym_le(v, e), "at most the distance to the domain edge");
        for (unsigned j = 0; j < n; j++) {
            double dx = x - X[j], dy = y - Y[j], d = std::sqrt(dx * dx + dy * dy) - R[j];
            sym_check(sym_le(v, d), "at most the distance to the hole"); hit = sym_or(hit, exact ? sym_eq(v, d) : std::fabs(v - d) < 1e-12);
        }
        sym_check(hit, "one of the distances");
        if (!n) sym_near(v, e, 0, "edge distance");
    }
    sym_cover(n == 0 ? "no holes" : n == 1 ? "one hole" : n == 2 ? "two holes" : "three holes");
}
