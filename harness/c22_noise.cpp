// C22: stochastic velocities.  Two or three hand-made boundary points on a small grid.
#include "lib.h"
extern "C" void sym_main() {
    unsigned w = sym_param("W", 3), h = sym_param("H", 2); int mode = sym_param("MODE", 0);
    const double mls[3] = {0.5, 0.125, 0.9375}; double ml = mls[sym_choice("limit", -1, 3)];
    LevelSet ls(w, h, noHoles, ml, 6, false), ref(w, h, noHoles, ml, 6, false); unsigned N = ls.mesh.nNodes;
    for (unsigned i = 0; i < N; i++) ls.signedDistance[i] = ref.signedDistance[i] = ls.mesh.nodes[i].coord.x - 1.375;
    Boundary b; b.discretise(ls, false); unsigned n = b.nPoints; std::vector<double> v(n), len(n);
    bool cold = mode == 1; double T = cold ? 0.0 : 0, dt = sym_choice("dt fixed", -1, 2) ? 0.5 : -1;
    if (!cold) T = dt > 0 ? sym_double("T", -1, 0.0009765625, 4) : 0.125; if (dt < 0) dt = sym_double("dt", -1, 0.0078125, 8);
    for (unsigned i = 0; i < n; i++) { v[i] = b.points[i].velocity = mode == 2 || i == 0 || cold ? sym_double("v", i, -2, 2) : 0.5 - i; len[i] = b.points[i].length = i == 0 ? sym_double("len", 0, 0.000244140625, 2) : 0.25 * (i + 1); }
    MersenneTwister rng; rng.setSeed(3); rndmodel::log().normals = 0; int warm = sym_choice("used", -1, 2); if (warm) rng.normal(0, 1); MersenneTwister copy = rng;
    double dt0 = dt; std::vector<double> field = ls.signedDistance, target = ls.target; rndmodel::log().normals = 0;
    for (unsigned i = 0; i < ls.mesh.nNodes; i++) ls.velocity[i] = i % 2 ? 7 : -7; // left over from another extension
    double scale = ls.computeVelocities(b.points, dt, T, rng);
    int draws = rndmodel::log().normals; std::vector<double> Z(n); if (draws) for (unsigned i = 0; i < n; i++) Z[i] = copy.normal(0, 1);
    if (cold) {
        sym_near(dt, dt0, 0, "time step unchanged at zero temperature"); sym_near(scale, 1, 0, "no scaling at zero temperature"); for (unsigned i = 0; i < n; i++) sym_near(b.points[i].velocity, v[i], 1e-12, "no noise at zero temperature"); sym_cover("cold");
    } else {
        sym_check(sym_le(1, scale * 1.000000001), "scale factor at least one"); sym_near(dt * scale, dt0, 1e-9, "time step divided by the scale factor");
        sym_check(sym_le(2 * T * dt, 0.25 * ml * ml * 1.000001), "noise over one step within half the move limit");
        if (sym_fork(sym_le(2 * T * dt0, 0.25 * ml * ml * 0.99999))) { sym_near(dt, dt0, 0, "small steps are kept"); sym_cover("kept"); }
        else if (sym_fork(sym_lt(0.25 * ml * ml * 1.00001, 2 * T * dt0))) { sym_near(2 * T * dt, 0.25 * ml * ml, 1e-9, "large steps reduced no further than needed"); sym_cover("reduced"); }
        for (unsigned i = 0; i < n; i++) {
            double k = b.points[i].velocity - v[i]; sym_near(k * k * len[i] * dt, 2 * T * Z[i] * Z[i], 1e-9, "noise amplitude"); sym_check(sym_or(sym_and(sym_le(0, k), sym_le(0, Z[i])), sym_and(sym_le(k, 0), sym_le(Z[i], 0))), "noise follows the draw of its own point"); }
        sym_check(draws == (int)n, "one draw per point");
    }
    for (unsigned i = 0; i < n; i++) { sym_check(sym_eq(b.points[i].length, len[i]), "lengths unchanged"); }
    for (unsigned i = 0; i < N; i++) sym_check(sym_eq(ls.signedDistance[i], field[i]), "field unchanged");
    if (mode != 0) { ref.computeVelocities(b.points); for (unsigned i = 0; i < N; i++) sym_near(ls.velocity[i], ref.velocity[i], 1e-9, "extension of the point velocities"); sym_cover("extended"); }
    sym_check(b.points.size() == n, "points kept"); sym_cover("done");
}
