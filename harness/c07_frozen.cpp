// C07: masked nodes keep their value through velocity extension and update.
#include "lib.h"
extern "C" void sym_main() {
    unsigned w = sym_param("W", 4), h = sym_param("H", 4);
    LevelSet ls(w, h, noHoles, 0.5, 8, sym_choice("fixed", -1, 2) == 1); Mesh& m = ls.mesh;
    std::vector<Coord> p(2); int k = sym_choice("box", -1, 4); p[0].x = k & 1 ? 1.5 : -1; p[1].x = p[0].x + 2 + (k & 1); p[0].y = k & 2 ? 1.25 : -0.5; p[1].y = p[0].y + 2;
    for (unsigned i = 0; i < m.nNodes; i++) ls.signedDistance[i] = m.nodes[i].coord.x - 2.25 + 0.25 * m.nodes[i].coord.y;
    ls.mask(p);
    std::vector<double> before = ls.signedDistance; std::vector<int> masked(m.nNodes); for (unsigned i = 0; i < m.nNodes; i++) masked[i] = m.nodes[i].isMasked;
    Boundary b; b.discretise(ls, false);
    double g = sym_double("g", -1, -1, 1); for (unsigned i = 0; i < b.nPoints; i++) b.points[i].velocity = (i & 1 ? 0.5 : 1) * g;
    ls.computeVelocities(b.points);
    for (unsigned i = 0; i < m.nNodes; i++) { if (masked[i]) sym_check(sym_eq(ls.signedDistance[i], before[i]), "masked value unchanged by extension"); }
    ls.computeGradients(); ls.nMines = 0;
    bool re = ls.update(sym_double("dt", -1, 0.0625, 2)); sym_check(!re, "no reinitialisation without mines");
    for (unsigned i = 0; i < m.nNodes; i++) if (masked[i]) { sym_check(sym_eq(ls.signedDistance[i], before[i]), "masked value unchanged by update"); sym_check(m.nodes[i].isMasked && !m.nodes[i].isActive, "still masked"); sym_cover("masked"); }
    sym_cover("done");
}
