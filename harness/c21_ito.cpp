// C21: Ito correction.  MODE 0: arbitrary chain of boundary points; MODE 1: a discretised field through the overload that computes the normals.
#include "lib.h"
static double dist(const Coord& a, double bx, double by) { double x = a.x - bx, y = a.y - by; return std::sqrt(x * x + y * y); }
extern "C" void sym_main() {
    int mode = sym_param("MODE", 0); double T = sym_choice("zero", -1, 2) ? 0.0 : sym_double("T", -1, 0, 4); const double d = 0.0009765625; Sensitivity s(d);
    Boundary b; LevelSet* ls = 0;
    if (mode == 0) {
        const double N[5][2] = {{1, 0}, {0, -1}, {0.6, 0.8}, {-0.8, 0.6}, {0, 0.5}}; unsigned n = b.nPoints = 3; b.length = 2; b.points.resize(n); b.nSegments = 0; unsigned mv = sym_choice("moved", -1, n);
        for (unsigned i = 0; i < n; i++) {
            BoundaryPoint& p = b.points[i]; p.coord.x = i * 0.75; p.coord.y = 0.25 * i * i; if (i == mv) { p.coord.x += sym_double("x", -1, -0.25, 0.25); }
            int k = sym_choice("normal", i, 5); p.normal.x = N[k][0]; p.normal.y = N[k][1]; p.length = i == mv ? sym_double("len", i, 0.0625, 2) : 0.5; p.sensitivities.resize(3);
            for (int q = 0; q < 3; q++) p.sensitivities[q] = sym_double(q == 0 ? "s" : q == 1 ? "t" : "u", i, -8, 8);
        }
        int shape = sym_choice("chain", -1, 3); // open chain, closed, one isolated point
        for (unsigned i = 0; i < n; i++) { BoundaryPoint& p = b.points[i]; p.neighbours.resize(2); p.nNeighbours = 0; if (shape == 2 && i == 2) continue; if (i > 0 || shape == 1) p.neighbours[p.nNeighbours++] = i ? i - 1 : n - 1; if ((i + 1 < n && !(shape == 2 && i == 1)) || shape == 1) p.neighbours[p.nNeighbours++] = (i + 1) % n; }
    } else {
        unsigned w = sym_param("W", 2), h = sym_param("H", 2); ls = new LevelSet(w, h, noHoles, 0.5, 6, false); int pat = sym_choice("field", -1, 3);
        for (unsigned i = 0; i < ls->mesh.nNodes; i++) { double x = ls->mesh.nodes[i].coord.x, y = ls->mesh.nodes[i].coord.y; ls->signedDistance[i] = pat == 0 ? x - 0.75 : pat == 1 ? 0.875 * y - 0.5 * x - 0.25 : 1.25 - x * 0.5 - y; }
        b.discretise(*ls, false);
        for (unsigned i = 0; i < b.nPoints; i++) { BoundaryPoint& p = b.points[i]; p.sensitivities[0] = sym_double("s", i, -8, 8); p.sensitivities[1] = sym_double("t", i, -8, 8); p.normal.x = 0; p.normal.y = 7; }
    }
    std::vector<BoundaryPoint> o = b.points; double len = b.length; unsigned ns = b.nSegments; Boundary c = b; if (mode == 1) { c.computeNormalVectors(*ls); }
    if (mode == 0) s.itoCorrection(b, T); else s.itoCorrection(b, *ls, T);
    for (unsigned i = 0; i < b.nPoints; i++) {
        BoundaryPoint& p = b.points[i]; Coord n = T == 0 && mode == 1 ? o[i].normal : c.points[i].normal;
        if (T == 0) sym_near(p.sensitivities[0], o[i].sensitivities[0], 0, "identity at zero temperature");
        else {
            double f1 = 0, f2 = 0; for (unsigned j = 0; j < o[i].nNeighbours; j++) { const Coord& q = o[o[i].neighbours[j]].coord; f1 += dist(q, o[i].coord.x + d * n.x, o[i].coord.y + d * n.y); f2 += dist(q, o[i].coord.x - d * n.x, o[i].coord.y - d * n.y); }
            double l = o[i].length; sym_near((o[i].sensitivities[0] - p.sensitivities[0]) * (2 * l * l) * (2 * d), T * (f1 - f2), 1e-9, "temperature times local curvature subtracted once"); sym_cover("corrected");
        }
        for (size_t q = 1; q < o[i].sensitivities.size(); q++) sym_near(p.sensitivities[q], o[i].sensitivities[q], 0, "other sensitivities unchanged");
        sym_check(sym_eq(p.coord.x, o[i].coord.x) && sym_eq(p.coord.y, o[i].coord.y) && sym_eq(p.length, o[i].length) && p.nNeighbours == o[i].nNeighbours, "geometry unchanged");
        if (T == 0) { sym_near(p.normal.x, o[i].normal.x, 0, "identity at zero temperature"); sym_near(p.normal.y, o[i].normal.y, 0, "identity at zero temperature"); }
        if (mode == 1 && T != 0) { sym_near(p.normal.x, n.x, 1e-9, "normals computed first"); sym_near(p.normal.y, n.y, 1e-9, "normals computed first"); }
    }
    sym_check(b.nPoints == o.size() && b.nSegments == ns && sym_eq(b.length, len), "boundary unchanged"); sym_cover("done");
}
