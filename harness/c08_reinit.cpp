// C08: signs and front distances after reinitialisation, arbitrary fields.
#include "lib.h"
extern "C" void sym_main() {
    unsigned w = sym_param("W", 1), h = sym_param("H", 1), nsym = sym_param("NSYM", 99); bool zeros = sym_param("ZEROS", 1);
    LevelSet ls(w, h, noHoles, 0.5, 6, false); Mesh& m = ls.mesh; unsigned N = m.nNodes;
    double lo = sym_param("TINY", 0) ? std::ldexp(1.0, -90) : sym_param("SMALL", 0) ? std::ldexp(1.0, -9) : 0.0625;
    std::vector<double> f(N); bool pos = false, neg = false, zero = false;
    const int big = sym_param("BIG", 0); unsigned any = 0; if (big) any = sym_choice("at", -1, big) * (N / big); // a fixed wavy field with one arbitrary node
    unsigned off = nsym < N ? sym_choice("off", -1, N) : 0;
    const bool small = sym_param("SMALL", 0) && sym_choice("small", -1, 2); // the node after the arbitrary ones is almost on the front
    for (unsigned j = 0; j < N; j++) {
        unsigned i = (j + off) % N;
        if (big) { f[i] = i == any ? (sym_choice("sign", i, 2) ? -1 : 1) * sym_double("f", i, 0.40625, 0.4072265625) : (8 * std::sin(0.7 * m.nodes[i].coord.x + 1) * std::cos(0.5 * m.nodes[i].coord.y) + (int)((i * 7919u) % 29) / 29.0) / 4; if (sgn(f[i]) > 0) pos = true; else neg = true; continue; }
        f[i] = j < nsym ? signedValue("f", i, lo, 1.5, zeros) : (sym_choice("sign", i, 2) ? -1 : 1) * (small && j == nsym ? 0.0078125 : 0.5 + 0.375 * (i % 4));
        if (sgn(f[i]) > 0) pos = true; else if (sgn(f[i]) < 0) neg = true; else zero = true; }
    sym_assume(zero || (pos && neg));
    ls.signedDistance = f; ls.reinitialise();
    for (unsigned i = 0; i < N; i++) {
        double u = ls.signedDistance[i]; int s = sgn(f[i]);
        if (s == 0) { sym_near(u, 0, 0, "front node stays zero"); continue; }
        sym_check(s > 0 ? sym_lt(0, u) : sym_lt(u, 0), "sign preserved");
        double x = m.nodes[i].coord.x, y = m.nodes[i].coord.y, inv = 0; bool border = false;
        for (int dim = 0; dim < 2; dim++) { // nearest crossing along this axis
            double best = 0; bool any = false;
            for (int side = -1; side <= 1; side += 2) {
                double X = x + (dim == 0 ? side : 0), Y = y + (dim == 1 ? side : 0); if (X < 0 || Y < 0 || X > w || Y > h) continue;
                unsigned n = m.xyToIndex[(unsigned)X][(unsigned)Y]; if (sgn(f[n]) * s >= 0) continue;
                double d = f[i] / (f[i] - f[n]); if (!any || d < best) best = d; any = true;
            }
            if (any) { border = true; inv += 1 / (best * best); }
        }
        if (border) { sym_near(u * u * inv, 1, 1e-9, "distance from the crossings"); sym_cover("border"); } else sym_cover("away");
    }
    sym_cover("done");
}
