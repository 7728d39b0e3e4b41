// C32: whole cycles on a flat front of arbitrary position, speed and admissible step.
#include "lib.h"
extern "C" void sym_main() {
    unsigned w = sym_param("W", 8), h = sym_param("H", 3), cycles = sym_param("CYCLES", 1), margin = sym_param("MARGIN", 0); int mode = sym_param("MODE", 0); int orient = sym_choice("orientation", -1, sym_param("ORIENT", 4)); double base = sym_param("BASE", 3);
    if (orient & 1) std::swap(w, h);
    bool alongY = orient & 1; double sign = orient & 2 ? -1 : 1, side = alongY ? h : w; unsigned bw = sym_param("BW", 6);
    double c = mode == 1 ? base + 0.0625 + 0.375 * sym_choice("at", -1, sym_param("ATS", 3)) : sym_double("c", -1, base + 0.0625, base + 0.9375), move[4], v[4]; static const double steps[3] = {0.5, 0.25, 1};
    LevelSet ls(w, h, noHoles, 0.5, bw, false); Mesh& m = ls.mesh; unsigned N = m.nNodes;
    for (unsigned i = 0; i < N; i++) ls.signedDistance[i] = sign * ((alongY ? m.nodes[i].coord.y : m.nodes[i].coord.x) - c);
    ls.reinitialise(); double at = c;
    for (unsigned k = 0; k <= cycles; k++) {
        Boundary b; b.discretise(ls, false); double total = ls.computeAreaFractions(b); b.computeNormalVectors(ls); (void)total;
        unsigned found = 0;
        for (unsigned i = 0; i < b.nPoints; i++) {
            double t = alongY ? b.points[i].coord.x : b.points[i].coord.y, s = alongY ? b.points[i].coord.y : b.points[i].coord.x, len = alongY ? w : h;
            if (k && (t < 1 + margin || t > len - 1 - margin)) continue;
            double rim = k ? margin + 0.5 : 0; if (sym_fork(sym_lt(s, rim)) || sym_fork(sym_lt(side - rim, s))) continue;
            sym_near(s, at, k ? 2e-6 : 1.1e-6, "front position"); found++;
            if (k && (t < 2 + margin || t > len - 2 - margin)) continue; double nn = alongY ? b.points[i].normal.y : b.points[i].normal.x; sym_near(nn, sign, 1e-9, "normal across the front"); }
        sym_check(found > 0, "front found");
        // area of the element columns away from the edges
        for (unsigned r = 0; r < (alongY ? w : h); r++) {
            if (k && (r < 1 + margin || r + 1 + margin >= (alongY ? w : h))) continue;
            double a = 0; for (unsigned q = margin; q + margin < (alongY ? h : w); q++) a += m.elements[alongY ? q * w + r : r * w + q].area;
            sym_near(a, sign > 0 ? side - margin - at : at - margin, 4e-6, "enclosed area"); sym_cover(k ? "area after" : "area before");
        }
        if (k == cycles) break;
        double dt = steps[sym_choice("step", k, sym_param("STEPS", 3))]; v[k] = mode == 0 || (mode == 1 && k + 1 < cycles) ? -0.5 + 0.3125 * sym_choice("vc", k, sym_param("VCS", 4)) : sym_double("v", k, -0.5, 0.5); move[k] = v[k] * dt;
        for (unsigned i = 0; i < b.nPoints; i++) b.points[i].velocity = v[k];
        std::vector<double> f = ls.signedDistance; ls.computeVelocities(b.points); ls.computeGradients();
        bool re = ls.update(dt); at += sign * move[k];
        for (unsigned i = 0; i < N; i++) {
            double x = m.nodes[i].coord.x, y = m.nodes[i].coord.y; if (m.nodes[i].isDomain) { if (m.nodes[i].isActive && !re) sym_check(sym_le(ls.signedDistance[i], 1e-12), "edge stays outside"); continue; }
            double across = alongY ? x : y, along = alongY ? y : x; if (k && (across <= margin || across >= (alongY ? w : h) - margin || std::fabs(along - base - 0.5) > 2)) continue;
            if (!m.nodes[i].isActive) { if (!re) sym_check(sym_eq(ls.signedDistance[i], f[i]), "nodes outside the band unchanged"); continue; }
            if (!re) { sym_near(ls.signedDistance[i], sign * ((alongY ? y : x) - at), 1e-9, "advanced by speed times time"); sym_cover(k ? "second cycle" : "advanced"); } else sym_cover("reinitialised");
        }
        if (re || mode == 2) return;
    }
}
