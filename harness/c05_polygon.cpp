// C05: the field built from a closed polygon, translated arbitrarily.
#include "lib.h"
typedef std::vector<std::pair<double, double>> Poly;
static double segDist(double ax, double ay, double bx, double by, double px, double py) {
    double ux = bx - ax, uy = by - ay, l = ux * ux + uy * uy, s = (px - ax) * ux + (py - ay) * uy;
    double ex = px - ax, ey = py - ay;
    if (l < 1e-6 || s <= 0) return std::sqrt(ex * ex + ey * ey);
    if (s >= l) { ex = px - bx; ey = py - by; return std::sqrt(ex * ex + ey * ey); }
    double c = ux * ey - uy * ex; return std::fabs(c) / std::sqrt(l);
}
extern "C" void sym_main() {
    unsigned w = sym_param("W", 2), h = sym_param("H", 2);
    static const Poly S[] = { // counter-clockwise, closed; the last is concave
        {{0, 0}, {1.25, 0}, {1.25, 1.5}, {0, 1.5}, {0, 0}}, {{0, 0}, {1.5, 0.25}, {0.5, 1.75}, {0, 0}}, {{0, 0}, {0.75, -0.5}, {1.5, 0}, {0.75, 1.25}, {0, 0}},
        {{0, 0}, {0.5, 0}, {0.5, 0}, {0.5, 0.5}, {0, 0.5}, {0, 0}}, {{0, 0}, {2, 0}, {2, 2}, {1.5, 0.75}, {0, 0}},
        {{0, 0}, {0.03125, -0.015625}, {1.5, 0.75}, {1.3125, 0.875}, {0, 0.25}, {0, 0}}, {{0, 0.75}, {0.25, 0.75}, {0.25, 1.5}, {0, 1.5}, {0, 0.75}}}; // short edges
    int k = sym_choice("shape", -1, 7), rev = sym_choice("cw", -1, 2), dir = sym_choice("dir", -1, 3);
    double t = sym_double("t", -1, -0.5, 1.25), tx = t, ty = 0.375;
    if (dir == 1) { tx = 0.25; ty = t; } if (dir == 2) { tx = t; ty = 0.5 * t + 0.0625; }
    Poly q = S[k]; if (rev) std::reverse(q.begin(), q.end());
    std::vector<Coord> pts; for (auto& v : q) { Coord c; c.x = v.first + tx; c.y = v.second + ty; pts.push_back(c); }
    LevelSet ls(w, h, pts, 0.5, 6, false);
    for (unsigned i = 0; i < ls.mesh.nNodes; i++) {
        double x = ls.mesh.nodes[i].coord.x, y = ls.mesh.nodes[i].coord.y, v = ls.signedDistance[i], a = std::fabs(v);
        double e = minOf(minOf(x, w - x), minOf(y, h - y)); bool hit = sym_le(e - 1e-9, a);
        sym_check(sym_le(a, e + 1e-12), "at most the distance to the domain edge");
        int cross = 0; bool on = false;
        for (unsigned j = 0; j + 1 < pts.size(); j++) {
            double d = segDist(pts[j].x, pts[j].y, pts[j + 1].x, pts[j + 1].y, x, y);
            sym_check(sym_le(a, d + 1e-9), "at most the distance to the contour"); hit = sym_or(hit, sym_le(d - 1e-9, a));
            if (d == 0) on = true;
            double ay = pts[j].y - y, by = pts[j + 1].y - y; // even-odd crossing of the ray to +x
            if ((ay > 0) != (by > 0)) { double c = (pts[j + 1].x - pts[j].x) * ay - (pts[j].x - x) * (pts[j + 1].y - pts[j].y); if ((c > 0) != (by > ay)) cross++; }
        }
        sym_check(hit, "one of the distances");
        if (!on) {
            if (cross % 2) { sym_check(sym_le(v, 0), "inside is negative"); if (!(e <= 0)) sym_check(sym_lt(v, 0), "inside is negative"); sym_cover("inside"); }
            else { sym_check(sym_le(0, v), "outside is positive"); sym_cover("outside"); }
        }
    }
}
