// C31: mirrored, transposed and complemented fields give mirrored results.
#include "lib.h"
static void image(int op, unsigned w, unsigned h, double x, double y, double& X, double& Y) { X = x; Y = y; if (op == 1) X = w - x; if (op == 2) Y = h - y; if (op == 3) { X = y; Y = x; } }
extern "C" void sym_main() {
    unsigned w = sym_param("W", 1), h = sym_param("H", 1), N = (w + 1) * (h + 1); int reinit = sym_param("REINIT", 0);
    int op = sym_choice("op", -1, 4); // 0 complement, 1 mirror x, 2 mirror y, 3 transpose
    unsigned W = op == 3 ? h : w, H = op == 3 ? w : h, nsym = sym_param("NSYM", 99);
    LevelSet A(w, h, noHoles, 0.5, 6, false), B(W, H, noHoles, 0.5, 6, false);
    std::vector<int> s(N); std::vector<unsigned> im(N); std::vector<double> f(N);
    unsigned one = sym_param("NORMALS", 0) ? sym_choice("one", -1, N) : 0;
    for (unsigned i = 0; i < N; i++) {
        if (sym_param("NORMALS", 0) && i == one) { // close to the node, or one of three bands
            static const double V[4] = {1.0 / 4096, 0.25, 0.6875, 1.3125}; double v = V[sym_choice("band", i, 4)]; v += sym_double("f", i, 0, 1.0 / 64); f[i] = sym_choice("sign", i, 2) ? -v : v;
        } else f[i] = i < nsym ? signedValue("f", i, std::ldexp(1.0, -sym_param("LO", 4)), 1.5, sym_param("ZEROS", 1)) : (sym_choice("sign", i, 2) ? -1 : 1) * (sym_param("NORMALS", 0) ? i % 3 == 1 ? 1.5 : 0.5 : 0.5 + 0.125 * i);
        s[i] = sgn(f[i]);
        double X, Y; image(op, w, h, A.mesh.nodes[i].coord.x, A.mesh.nodes[i].coord.y, X, Y); im[i] = B.mesh.xyToIndex[(unsigned)X][(unsigned)Y];
        A.signedDistance[i] = f[i]; B.signedDistance[im[i]] = op == 0 ? -f[i] : f[i];
    }
    if (reinit) {
        bool front = false, pos = false, neg = false; for (unsigned i = 0; i < N; i++) { front |= s[i] == 0; pos |= s[i] > 0; neg |= s[i] < 0; } sym_assume(front || (pos && neg));
        A.reinitialise(); B.reinitialise();
        for (unsigned i = 0; i < N; i++) sym_near(B.signedDistance[im[i]], op == 0 ? -A.signedDistance[i] : A.signedDistance[i], 1e-9, "reinitialised value");
        sym_cover("reinit"); return;
    }
    bool tie = false;
    for (unsigned e = 0; e < A.mesh.nElements; e++) { const Element& el = A.mesh.elements[e]; bool sad = true; double sum = 0; for (int j = 0; j < 4; j++) { sum += f[el.nodes[j]]; if (s[el.nodes[j]] * s[el.nodes[(j + 1) % 4]] >= 0) sad = false; } if (sad && sym_fork(sym_eq(sum, 0))) tie = true; }
    Boundary a, b; a.discretise(A, false); b.discretise(B, false);
    bool zero = false; for (unsigned i = 0; i < N; i++) zero |= s[i] == 0;
    if (tie) return;
    const bool normals = sym_param("NORMALS", 0); if (normals) { for (unsigned i = 0; i < b.nPoints; i++) { b.points[i].normal.x = 0.75; b.points[i].normal.y = -0.5 - i; } a.computeNormalVectors(A); b.computeNormalVectors(B); }
    double ta = A.computeAreaFractions(a), tb = B.computeAreaFractions(b);
    bool geom = !(op == 0 && zero); // with zeros on nodes only the void side draws nothing; geometry is compared for strict fields
    if (geom) {
        sym_check(a.nPoints == b.nPoints && a.nSegments == b.nSegments, "same number of points and segments");
        sym_near(a.length, b.length, 1e-9, "same length");
        sym_near(tb, op == 0 ? A.mesh.nElements - ta : ta, 1e-9, "total area");
        for (unsigned e = 0; e < A.mesh.nElements; e++) {
            double X, Y; image(op, w, h, A.mesh.elements[e].coord.x, A.mesh.elements[e].coord.y, X, Y); unsigned q = (unsigned)X + W * (unsigned)Y;
            sym_near(B.mesh.elements[q].area, op == 0 ? 1 - A.mesh.elements[e].area : A.mesh.elements[e].area, 1e-9, "element area");
        }
        double sa = 0, sb = 0;
        for (unsigned i = 0; i < a.nPoints && i < b.nPoints; i++) { // every point has its image, with the same length and degree
            double X, Y; image(op, w, h, a.points[i].coord.x, a.points[i].coord.y, X, Y); int hit = -1;
            for (unsigned j = 0; j < b.nPoints; j++) if (sym_fork(sym_and(sym_and(sym_lt(X - 1e-9, b.points[j].coord.x), sym_lt(b.points[j].coord.x, X + 1e-9)), sym_and(sym_lt(Y - 1e-9, b.points[j].coord.y), sym_lt(b.points[j].coord.y, Y + 1e-9))))) hit = j;
            sym_check(hit >= 0, "point has its image"); if (hit < 0) continue;
            sym_near(b.points[hit].length, a.points[i].length, 1e-9, "point length"); sym_check(b.points[hit].nSegments == a.points[i].nSegments, "point degree");
            if (normals) { // the image of the direction
                double X0, Y0; image(op, w, h, 0, 0, X0, Y0); image(op, w, h, a.points[i].normal.x, a.points[i].normal.y, X, Y); X -= X0; Y -= Y0; if (op == 0) { X = -X; Y = -Y; }
                sym_near(b.points[hit].normal.x, X, 1.0 / 64, "normal"); sym_near(b.points[hit].normal.y, Y, 1.0 / 64, "normal"); sym_cover("normals"); continue;
            }
            sym_check(b.points[hit].isDomain == a.points[i].isDomain, "domain flag"); sym_near(b.points[hit].negativeLimit, a.points[i].negativeLimit, 1e-9, "outward limit");
        }
        sym_cover("compared");
    }
}
