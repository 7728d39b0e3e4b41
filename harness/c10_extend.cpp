// C10: velocity extension from arbitrary boundary velocities.
#include "lib.h"
// Fronts parallel to the grid lines: every node takes the velocity of the front point straight across.
static void across() {
    unsigned n = sym_param("W", 5), t = sym_param("H", 2); bool turn = sym_choice("turn", -1, 2), flip = sym_choice("flip", -1, 2); int c = sym_choice("front", -1, n - 1) + 1, d = sym_choice("second", -1, 2) ? c + 3 : -1; unsigned bw = sym_choice("bw", -1, 2) ? 3 : 6;
    double s = sym_choice("between", -1, 2) ? sym_double("s", -1, 0.03125, 0.96875) : 0, C = c + s, D = d + s; // on a grid line or between two
    if (d > (int)n || (s != 0 && (d == (int)n || c == (int)n))) return;
    LevelSet ls(turn ? t : n, turn ? n : t, noHoles, 0.5, bw, false); Mesh& m = ls.mesh;
    for (unsigned i = 0; i < m.nNodes; i++) { double x = turn ? m.nodes[i].coord.y : m.nodes[i].coord.x, v = d < 0 ? x - C : x <= (c + d + 1) / 2 ? x - C : D - x; ls.signedDistance[i] = flip ? -v : v; }
    ls.reinitialise(); Boundary b; b.discretise(ls, false); std::vector<double> v(t + 1), u(t + 1);
    for (unsigned i = 0; i < b.nPoints; i++) { double x = turn ? b.points[i].coord.y : b.points[i].coord.x; int y = turn ? b.points[i].coord.x : b.points[i].coord.y; b.points[i].velocity = sym_double("v", i, -2, 2); if (d >= 0 && x > c + 1.25) u[y] = b.points[i].velocity; else v[y] = b.points[i].velocity; }
    for (unsigned i = 0; i < m.nNodes; i++) ls.velocity[i] = i % 2 ? 7 : -7; // left over from another extension
    ls.computeVelocities(b.points);
    for (unsigned i = 0; i < m.nNodes; i++) if (m.nodes[i].isActive) {
        double x = turn ? m.nodes[i].coord.y : m.nodes[i].coord.x; int y = turn ? m.nodes[i].coord.x : m.nodes[i].coord.y; double e = std::fabs(x - C), f = d < 0 ? 99 : std::fabs(x - D);
        if (sym_fork(sym_le(std::fabs(e - f), 1e-6))) continue;
        sym_near(ls.velocity[i], sym_fork(sym_lt(e, f)) ? v[y] : u[y], 1e-9, "velocity of the front point straight across"); sym_cover(s != 0 ? "between grid lines" : d < 0 ? "one front" : "two fronts");
    }
}
extern "C" void sym_main() {
    if (sym_param("MODE", 0)) { across(); return; }
    unsigned w = sym_param("W", 4), h = sym_param("H", 3); int k = sym_choice("shape", -1, sym_param("SHAPES", 6)); unsigned bw = sym_choice("bw", -1, 2) ? 3 : 6;
    bool fixed = sym_choice("fixed", -1, 2), masked = sym_choice("masked", -1, 2);
    LevelSet ls(w, h, noHoles, 0.5, bw, fixed); Mesh& m = ls.mesh;
    for (unsigned i = 0; i < m.nNodes; i++) {
        double x = m.nodes[i].coord.x, y = m.nodes[i].coord.y, cx = x - 0.5 * w, cy = y - 0.5 * h, r = std::sqrt(cx * cx + cy * cy);
        ls.signedDistance[i] = k == 0 ? x - 1.375 : k == 1 ? r - 1.0625 : k == 2 ? 0.625 * (x - y) + 0.125 : k == 3 ? y - 1 : k == 4 ? std::fabs(cx) - 0.8125 : x + y - 2.5;
    }
    if (masked) { std::vector<Coord> p(2); p[0].x = 1.5; p[0].y = 0.5; p[1].x = 3.5; p[1].y = 1.5; ls.mask(p); }
    ls.reinitialise();
    Boundary b; b.discretise(ls, false); if (!b.nPoints) return;
    std::vector<double> field = ls.signedDistance;
    bool uniform = sym_choice("uniform", -1, 2); double lo = 0, hi = 0;
    unsigned nsym = sym_param("NSYM", 99), off = !uniform && nsym < b.nPoints ? sym_choice("off", -1, b.nPoints) : 0;
    for (unsigned i = 0; i < b.nPoints; i++) {
        unsigned j = (i + b.nPoints - off) % b.nPoints;
        double v = uniform ? (i ? b.points[0].velocity : sym_double("v", 0, -2, 2)) : j < nsym ? sym_double("v", i, -2, 2) : 0.5 * ((int)(i % 5) - 2);
        b.points[i].velocity = v;
    }
    for (unsigned i = 0; i < m.nNodes; i++) ls.velocity[i] = i % 2 ? 7 : -7; // left over from another extension
    ls.computeVelocities(b.points);
    for (unsigned i = 0; i < m.nNodes; i++) sym_check(sym_eq(ls.signedDistance[i], field[i]), "field unchanged");
    if (uniform) {
        if (fixed) return; // fixed edge nodes carry no boundary points and stay at rest
        double v = b.points[0].velocity;
        // the active nodes that are connected to the front through active nodes
        std::vector<bool> in(m.nNodes, false); bool more = true;
        for (unsigned i = 0; i < m.nNodes; i++) if (m.nodes[i].isActive) { if (field[i] == 0) in[i] = true; for (int j = 0; j < 4; j++) { unsigned n = m.nodes[i].neighbours[j]; if (n < m.nNodes && field[n] * field[i] < 0) in[i] = true; } }
        while (more) { more = false; for (unsigned i = 0; i < m.nNodes; i++) if (m.nodes[i].isActive && !in[i]) for (int j = 0; j < 4; j++) { unsigned n = m.nodes[i].neighbours[j]; if (n < m.nNodes && in[n]) { in[i] = more = true; break; } } }
        for (unsigned i = 0; i < m.nNodes; i++) if (in[i]) { sym_near(ls.velocity[i], v, 1e-9, "uniform velocity everywhere"); sym_cover("uniform"); }
        return;
    }
    for (unsigned i = 0; i < m.nNodes; i++) {
        bool below = true, above = true; // some boundary velocity (or zero) is at or below / above
        below = sym_le(-1e-9, ls.velocity[i]); above = sym_le(ls.velocity[i], 1e-9);
        for (unsigned j = 0; j < b.nPoints; j++) { below = sym_or(below, sym_le(b.points[j].velocity - 1e-9, ls.velocity[i])); above = sym_or(above, sym_le(ls.velocity[i], b.points[j].velocity + 1e-9)); }
        sym_check(sym_and(below, above), "within the range of the boundary velocities and zero");
        if (m.nodes[i].isActive) sym_cover("active"); else sym_cover("inactive");
    }
}
