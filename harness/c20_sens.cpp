// C20: finite-difference sensitivities.  MODE 0: quadratic objectives over the reals; MODE 1: the point is restored exactly (IEEE); MODE 2: points of a real boundary.
#include "lib.h"
extern "C" void sym_main() {
    int mode = sym_param("MODE", 0); BoundaryPoint p; std::vector<Coord> seen; std::vector<double> c(6);
    if (mode == 1) {
        double x = p.coord.x = sym_double("x", -1, 0, 1000), y = p.coord.y = sym_double("y", -1, 0, 1000), nx = p.normal.x = sym_double("nx", -1, -1, 1), ny = p.normal.y = sym_double("ny", -1, -1, 1); p.length = 0.75; int calls = 0;
        Sensitivity s(1e-4); SensitivityCallback f = [&](const BoundaryPoint& q) { calls++; return 0.5; }; double r = s.computeSensitivity(p, f);
        sym_check(sym_eq(p.coord.x, x), "x restored exactly"); sym_check(sym_eq(p.coord.y, y), "y restored exactly"); sym_check(sym_eq(p.normal.x, nx) && sym_eq(p.normal.y, ny), "normal unchanged"); sym_check(r == 0, "constant objective"); sym_check(calls == 2, "two evaluations"); sym_cover("restored"); return;
    }
    double d = sym_double("d", -1, 0.0001220703125, 0.5), x = p.coord.x = sym_double("x", -1, -10, 10), y = p.coord.y = sym_double("y", -1, -10, 10), nx = p.normal.x = sym_double("nx", -1, -1, 1), ny = p.normal.y = sym_double("ny", -1, -1, 1), len = p.length = sym_double("len", -1, 0.015625, 4);
    p.velocity = 3; p.negativeLimit = -0.25; p.positiveLimit = 0.5; p.isDomain = true; p.isFixed = false; p.nSegments = 2; p.segments[1] = 4; p.nNeighbours = 1; p.neighbours[0] = 9; p.sensitivities[0] = 7; p.sensitivities[1] = 8;
    for (int i = 0; i < 6; i++) c[i] = sym_double("c", i, -4, 4);
    std::vector<BoundaryPoint> got;
    SensitivityCallback f = [&](const BoundaryPoint& q) { got.push_back(q); double a = q.coord.x, b = q.coord.y; return c[0] + c[1] * a + c[2] * b + c[3] * a * a + c[4] * a * b + c[5] * b * b; };
    Sensitivity s(d); double r = s.computeSensitivity(p, f);
    double deriv = (c[1] + 2 * c[3] * x + c[4] * y) * nx + (c[2] + c[4] * x + 2 * c[5] * y) * ny;
    sym_near(r * len, deriv, 1e-9, "derivative along the normal per unit length");
    sym_check(sym_eq(p.coord.x, x) && sym_eq(p.coord.y, y), "coordinates restored"); sym_check(sym_eq(p.normal.x, nx) && sym_eq(p.normal.y, ny), "normal unchanged"); sym_check(sym_eq(p.length, len), "length unchanged");
    sym_check(p.velocity == 3 && p.negativeLimit == -0.25 && p.positiveLimit == 0.5 && p.isDomain && !p.isFixed && p.nSegments == 2 && p.segments[1] == 4 && p.nNeighbours == 1 && p.neighbours[0] == 9 && p.sensitivities[0] == 7 && p.sensitivities[1] == 8, "everything else unchanged");
    sym_check(got.size() == 2, "two evaluations"); if (got.size() != 2) return;
    int sg = 0; for (int k = 0; k < 2; k++) { // one on either side, in any order
        bool plus = sym_and(sym_eq(got[k].coord.x, x + d * nx), sym_eq(got[k].coord.y, y + d * ny)), minus = sym_and(sym_eq(got[k].coord.x, x - d * nx), sym_eq(got[k].coord.y, y - d * ny));
        sym_check(sym_or(plus, minus), "evaluated one step away along the normal"); sym_check(sym_eq(got[k].length, len) && sym_eq(got[k].normal.x, nx) && got[k].nNeighbours == 1 && got[k].neighbours[0] == 9, "callback sees the point's other data");
    }
    sym_check(sym_eq(got[0].coord.x + got[1].coord.x, 2 * x) && sym_eq(got[0].coord.y + got[1].coord.y, 2 * y), "symmetric about the point"); sym_cover("quadratic");
}
