// C07: masking with circles, rectangles and polygons; masked nodes stay frozen.
#include "lib.h"
extern "C" void sym_main() {
    unsigned w = sym_param("W", 2), h = sym_param("H", 2); int kind = sym_choice("kind", -1, sym_param("KINDS", 3));
    LevelSet ls(w, h, noHoles, 0.5, 6, false); Mesh& m = ls.mesh;
    std::vector<double> f(m.nNodes); int fld = sym_choice("field", -1, 3);
    for (unsigned i = 0; i < m.nNodes; i++) { double x = m.nodes[i].coord.x, y = m.nodes[i].coord.y; f[i] = fld == 0 ? 1 + 0.25 * x - 6 * y * y : fld == 1 ? x - 0.75 + 0.125 * y : 1.25 - x * 0.5 - y; ls.signedDistance[i] = f[i]; }
    double a = sym_double("a", -1, -0.5, w + 0.5), b = sym_double("b", -1, 0.0625, 2.5), c = sym_param("FREEY", 0) ? sym_double("c", -1, -0.5, h + 0.5) : 0.375 + 0.875 * sym_choice("ci", -1, 2);
    double X0 = a, Y0 = c - 0.75, X1 = a + b, Y1 = c + 0.75;
    int again = sym_choice("again", -1, sym_param("AGAIN", 3)); // a second region, masked afterwards: circle or rectangle
    bool more = kind == 0 && sym_choice("more", -1, 2);
    std::vector<int> in(m.nNodes); bool pos = false, neg = false;
    for (unsigned i = 0; i < m.nNodes; i++) {
        double x = m.nodes[i].coord.x, y = m.nodes[i].coord.y; bool inside, edge = false;
        if (kind == 0) { double dx = x - a, dy = y - c; inside = dx * dx + dy * dy < b * b; if (more && (x - 0.25) * (x - 0.25) + (y - 0.25) * (y - 0.25) < 0.25) inside = true; }
        else if (kind == 1) inside = X0 < x && x < X1 && Y0 < y && y < Y1;
        else { double s = (X1 - x) * (Y1 - Y0) - (y - Y0) * b; inside = x > X0 && y > Y0 && s > 0; edge = !inside && x >= X0 && y >= Y0 && s >= 0; } // right triangle
        if (again == 1 && x * x + (y - h) * (y - h) < 0.25) inside = true;
        if (again == 2 && x > w - 0.5 && y > -0.5 && y < h - 0.5) inside = true;
        in[i] = inside ? 1 : edge ? 2 : 0; // on the outline of the triangle: either
        if (inside || f[i] < 0) neg = true; else if (!edge) pos = true;
    }
    sym_assume(pos && neg); // a front remains
    if (kind == 0) { std::vector<Hole> H; H.push_back(Hole(a, c, b)); if (more) H.push_back(Hole(0.25, 0.25, 0.5)); ls.mask(H); }
    else if (kind == 1) { std::vector<Coord> p(2); p[0].x = X0; p[0].y = Y0; p[1].x = X1; p[1].y = Y1; ls.mask(p); }
    else { std::vector<Coord> p(4); p[0].x = X0; p[0].y = Y0; p[1].x = X1; p[1].y = Y0; p[2].x = X0; p[2].y = Y1; p[3] = p[0]; ls.mask(p); }
    if (again == 1) { std::vector<Hole> H; H.push_back(Hole(0, h, 0.5)); ls.mask(H); }
    if (again == 2) { std::vector<Coord> p(2); p[0].x = w - 0.5; p[0].y = -0.5; p[1].x = w + 0.5; p[1].y = h - 0.5; ls.mask(p); }
    for (unsigned i = 0; i < m.nNodes; i++) {
        if (in[i] == 2) continue;
        bool inside = in[i]; sym_check(m.nodes[i].isMasked == inside, "masked exactly inside the region");
        if (inside) { sym_check(sym_le(ls.signedDistance[i], 0), "masked node is void"); sym_check(!m.nodes[i].isActive, "masked node is outside the band"); sym_cover("masked");
            for (unsigned j = 0; j < m.nNodes; j++) { double e = std::abs(m.nodes[i].coord.x - m.nodes[j].coord.x) + std::abs(m.nodes[i].coord.y - m.nodes[j].coord.y); if (e == 1 && in[j] == 0 && f[j] >= 0.5) { sym_check(sym_lt(-1e-3, ls.signedDistance[i]), "structure next to a masked node ends at that node"); sym_cover("front on the mask"); } } }
        else { sym_check(f[i] > 0 ? sym_lt(0, ls.signedDistance[i]) : f[i] < 0 ? sym_lt(ls.signedDistance[i], 0) : sym_eq(ls.signedDistance[i], 0), "other nodes keep their sign"); sym_check(m.nodes[i].isActive, "other nodes stay active"); }
    }
    for (unsigned i = 0; i < ls.nNarrowBand; i++) sym_check(!m.nodes[ls.narrowBand[i]].isMasked, "no masked node in the band");
    sym_cover("done");
}
