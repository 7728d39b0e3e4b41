// C15: move limits and flags of boundary points, arbitrary move limit, masks and crossings.
#include "lib.h"
extern "C" void sym_main() {
    unsigned w = sym_param("W", 2), h = sym_param("H", 2), N = (w + 1) * (h + 1);
    double ml = sym_double("ml", -1, 0.02, 0.98);
    LevelSet ls(w, h, noHoles, ml, 6, sym_choice("fixed", -1, 2) == 1);
    Mesh& m = ls.mesh;
    for (unsigned i = 0; i < N; i++) { ls.signedDistance[i] = 0.5 + 0.125 * i; m.nodes[i].isActive = true; }
    unsigned k = sym_choice("neg", -1, N); double u = sym_double("u", -1, 0.0625, 4); bool close = sym_choice("close", -1, 2);
    ls.signedDistance[k] = -u;
    if (close) { for (unsigned i = 0; i < N; i++) if (i != k && m.nodes[i].isDomain) ls.signedDistance[i] = 1.25e-6; } // crossings within the snapping distance of the edge
    unsigned z = sym_choice("zero", -1, N + 1); if (z < N && z != k) ls.signedDistance[z] = 0;
    unsigned q = sym_choice("mask", -1, N + 1); if (q < N) { m.nodes[q].isMasked = true; m.nodes[q].isActive = false; }
    Boundary b; b.discretise(ls, false);
    for (unsigned i = 0; i < b.nPoints; i++) {
        const BoundaryPoint& p = b.points[i]; double x = p.coord.x, y = p.coord.y;
        double mb = minOf(minOf(x, w - x), minOf(y, h - y));
        bool onEdge = mb < 1e-6; double base = mb < ml ? -mb : -ml;
        sym_check(p.isDomain == onEdge, "domain flag");
        sym_near(p.positiveLimit, ml, 1e-12, "inward limit is the move limit");
        sym_check(sym_and(sym_le(p.negativeLimit, 0), sym_le(-ml, p.negativeLimit)), "outward limit within the move limit");
        sym_check(sym_le(base, p.negativeLimit), "outward limit within the domain");
        // distance to the masked node and to the nearest other node
        bool near = false, far = true; double d = 0;
        if (q < N) {
            double dx = x - m.nodes[q].coord.x, dy = y - m.nodes[q].coord.y, r = dx * dx + dy * dy; d = std::sqrt(r); near = true; far = false;
            for (unsigned j = 0; j < N; j++) if (j != q) { double ex = x - m.nodes[j].coord.x, ey = y - m.nodes[j].coord.y, t = ex * ex + ey * ey; if (!(r < t - 1e-4)) near = false; if (r > t + 1e-4) far = true; }
        }
        if (near && d < 1e-6) { sym_check(p.isFixed, "point on a fixed node is fixed"); sym_cover("fixed"); }
        else {
            if (d > 1e-5 || far) sym_check(!p.isFixed, "point off the fixed nodes is not fixed");
            if (near && d > 1e-5) { sym_near(p.negativeLimit, -d > base ? -d : base, 1e-9, "outward limit near a fixed node"); sym_cover("near fixed"); }
            else if (far) { sym_near(p.negativeLimit, base, 1e-9, "outward limit"); sym_cover("free"); }
        }
        if (onEdge) sym_near(p.negativeLimit, 0, 1e-6, "edge points cannot move outwards");
    }
    sym_cover("done");
}
