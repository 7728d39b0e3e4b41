// C02: point location for every IEEE double inside the domain.  One coordinate is an
// arbitrary double, the other runs over a fixed set (the two axes do not interact).
#include "sym.h"
#include "Mesh.h"
using namespace slsm;
extern "C" void sym_main() {
    int M = sym_param("MAX", 3), O = sym_param("OTHER", 2);
    bool vert = sym_choice("axis", -1, 2);
    unsigned L = sym_param("LONG", 0), a = L ? L : 1 + sym_choice("a", -1, M), b = 1 + sym_choice("b", -1, O);
    double from = 0, to = a; if (L) { from = sym_choice("end", -1, 2) ? L - 1.75 : 254.25; to = from + 1.75; } // about the 256th cell, or the far end
    double t = sym_double("t", -1, from, to);
    static const double at[3] = {0.0, 0.5, 1.0}; double u = at[sym_choice("u", -1, 3)] * b;
    unsigned w = vert ? b : a, h = vert ? a : b; double x = vert ? u : t, y = vert ? t : u;
    Mesh m(w, h); Coord p(x, y);
    unsigned e = m.getElement(p), e2 = m.getElement(x, y);
    sym_check(e < m.nElements, "element in range");
    sym_check(e == e2, "element overloads agree");
    if (e < m.nElements) {
        const Node &lo = m.nodes[m.elements[e].nodes[0]], &hi = m.nodes[m.elements[e].nodes[2]];
        const double t = 2e-6; // the lookup rounds down points up to 1e-6 past a cell edge
        sym_check(sym_and(lo.coord.x - t <= x, x <= hi.coord.x + t), "x inside the cell");
        sym_check(sym_and(lo.coord.y - t <= y, y <= hi.coord.y + t), "y inside the cell");
    }
    unsigned n = m.getClosestNode(p), n2 = m.getClosestNode(x, y);
    sym_check(n < m.nNodes, "node in range");
    sym_check(n == n2, "node overloads agree");
    if (n < m.nNodes) { // on a grid the nearest node is nearest in each coordinate
        double dx = x - m.nodes[n].coord.x, dy = y - m.nodes[n].coord.y;
        sym_check(sym_and(dx <= 0.5, dx >= -0.5), "nearest in x"); sym_check(sym_and(dy <= 0.5, dy >= -0.5), "nearest in y");
    }
    sym_cover("located");
}
