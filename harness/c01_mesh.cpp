// C01: every table of the grid describes one regular grid.  A linear probe field
// g(x,y) = a x + b y + c with arbitrary a, b, c is attached to coordinates; agreement of
// g for all a, b, c is agreement of the coordinates.
#include "sym.h"
#include "Mesh.h"
using namespace slsm;
static double a, b, c;
static double g(double x, double y) { return a * x + b * y + c; }
extern "C" void sym_main() {
    unsigned w, h, step = 1;
    if (int n = sym_param("LARGE", 0)) { static const unsigned S[6][3] = {{300, 2, 7}, {1, 300, 5}, {130, 131, 331}, {257, 256, 1499}, {65540, 1, 2711}, {1, 65540, 2711}}; int k = sym_choice("size", -1, n); w = S[k][0]; h = S[k][1]; step = S[k][2]; }
    else { w = 1 + sym_choice("w", -1, sym_param("MAX", 5)); h = 1 + sym_choice("h", -1, sym_param("MAX", 5)); }
    a = sym_double("a", -1, -10, 10); b = sym_double("b", -1, -10, 10); c = sym_double("c", -1, -10, 10);
    Mesh m(w, h);
    sym_check(m.width == w && m.height == h && m.nElements == w * h && m.nNodes == (w + 1) * (h + 1), "sizes");
    sym_check(m.nodes.size() == m.nNodes && m.elements.size() == m.nElements, "container sizes");
    for (unsigned y = 0; y <= h; y++) for (unsigned x = 0; x <= w; x++) {
        // large grids: the four corners of the grid, then every step-th node
        if (step > 1 && (x + y * (w + 1)) % step && !((x == 0 || x == w) && (y == 0 || y == h))) continue;
        unsigned n = m.xyToIndex[x][y];
        sym_check(n < m.nNodes, "table index in range");
        sym_check(n == x + y * (w + 1), "row-major node order");
        Node& nd = m.nodes[n];
        sym_near(g(nd.coord.x, nd.coord.y), g(x, y), 0, "node coordinate");
        bool edge = x == 0 || y == 0 || x == w || y == h;
        sym_check(nd.isDomain == edge, "domain-edge flag");
        sym_check(!nd.isActive && !nd.isMasked && !nd.isMine && nd.nBoundaryPoints == 0, "fresh node state");
        sym_check(nd.neighbours.size() == 4, "four neighbours");
        int dx[4] = {-1, 1, 0, 0}, dy[4] = {0, 0, -1, 1};
        for (int k = 0; k < 4; k++) {
            int X = (int)x + dx[k], Y = (int)y + dy[k]; unsigned q = nd.neighbours[k];
            if (X < 0 || Y < 0 || X > (int)w || Y > (int)h) sym_check(q == m.nNodes, "out-of-grid neighbour marked");
            else {
                sym_check(q < m.nNodes, "neighbour in range");
                if (q < m.nNodes) sym_near(g(m.nodes[q].coord.x, m.nodes[q].coord.y), g(nd.coord.x, nd.coord.y) + dx[k] * a + dy[k] * b, 0, "neighbour offset");
            }
        }
        // elements around the node
        unsigned expect = (x > 0 ? 1 : 0) * ((y > 0 ? 1 : 0) + (y < h ? 1 : 0)) + (x < w ? 1 : 0) * ((y > 0 ? 1 : 0) + (y < h ? 1 : 0));
        sym_check(nd.nElements == expect, "number of incident elements");
        for (unsigned k = 0; k < nd.nElements; k++) {
            unsigned e = nd.elements[k]; sym_check(e < m.nElements, "incident element in range");
            unsigned hits = 0; for (int j = 0; j < 4; j++) if (m.elements[e].nodes[j] == n) hits++;
            sym_check(hits == 1, "incident element has the node as a corner");
            for (unsigned l = 0; l < k; l++) sym_check(nd.elements[l] != e, "incident elements distinct");
        }
    }
    for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < w; x++) {
        if (step > 1 && (x + y * w) % step && !((x == 0 || x + 1 == w) && (y == 0 || y + 1 == h))) continue;
        unsigned e = x + y * w; Element& el = m.elements[e];
        sym_near(g(el.coord.x, el.coord.y), g(x + 0.5, y + 0.5), 0, "element centre");
        int cx[4] = {0, 1, 1, 0}, cy[4] = {0, 0, 1, 1};
        for (int j = 0; j < 4; j++) { sym_check(el.nodes[j] < m.nNodes, "corner in range"); Node& nd = m.nodes[el.nodes[j]]; sym_near(g(nd.coord.x, nd.coord.y), g(x + cx[j], y + cy[j]), 0, "corner anticlockwise"); }
    }
    sym_cover("grid");
}
