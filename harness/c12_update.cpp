// C12: one time step.  MODE 0: arbitrary field, gradient, velocity and step, no mine close.
// MODE 1: mines at every distance, compared with a separate reinitialisation.
// MODE 2: mines found by the code itself, the whole velocity/gradient/update chain.
#include "lib.h"
extern "C" void sym_main() {
    unsigned w = sym_param("W", 2), h = sym_param("H", 2); int mode = sym_param("MODE", 0);
    bool fixed = sym_choice("fixed", -1, 2);
    LevelSet ls(w, h, noHoles, 0.5, mode == 2 ? 3 : 6, fixed); Mesh& m = ls.mesh; unsigned N = m.nNodes;
    double dt = mode == 0 ? sym_double("dt", -1, 0.0009765625, 2) : sym_choice("dt", -1, 2) ? 1 : mode == 1 ? 0.001953125 : 0.375;
    std::vector<double> f(N), e(N); std::vector<bool> band(N);
    if (mode == 2) {
        double s = sym_double("s", -1, 1, 2), v = sym_double("v", -1, -1.5, 1.5); int neg = sym_choice("neg", -1, 2);
        for (unsigned i = 0; i < N; i++) { double d = m.nodes[i].coord.x - 1 - s; ls.signedDistance[i] = neg ? -d : d; }
        ls.reinitialise();
        for (unsigned i = 0; i < N; i++) { ls.velocity[i] = v; ls.gradient[i] = m.nodes[i].isActive ? 1.0 - 0.125 * ((unsigned)m.nodes[i].coord.x % 3) : 0; }
    } else {
        unsigned out = sym_choice("out", -1, N + 1), at = mode ? sym_choice("at", -1, N) : 0; int pat = mode ? sym_choice("field", -1, sym_param("FIELDS", 3)) : 0;
        ls.nNarrowBand = 0;
        for (unsigned j = 0; j < N; j++) { unsigned i = N - 1 - j; m.nodes[i].isActive = i != out; if (i != out) ls.narrowBand[ls.nNarrowBand++] = i; }
        for (unsigned i = 0; i < N; i++) {
            if (mode == 0) { ls.signedDistance[i] = sym_double("f", i, -4, 4); ls.gradient[i] = sym_double("g", i, 0, 2); ls.velocity[i] = sym_double("v", i, -2, 2); }
            else { double x = m.nodes[i].coord.x, y = m.nodes[i].coord.y; ls.signedDistance[i] = (pat == 0 ? 1.375 * x - 1.75 : pat == 1 ? 1.0625 * y + 1.25 * x - 2 : 1.75 - 1.25 * x + 0.25 * y); ls.gradient[i] = 1; ls.velocity[i] = i == at ? sym_double("v", 0, -2, 2) : i % 2 ? 0.125 : -0.25; }
        }
        ls.nMines = 0; int mk = sym_choice("mines", -1, mode ? 4 : 3); // none, one, two
        for (int k = 0; k < (mk == 3 ? 2 : mk ? 1 : 0); k++) { unsigned n = mk == 1 ? 0 : mk == 2 ? N - 1 : k ? N / 2 : 1; ls.mines[ls.nMines++] = n; m.nodes[n].isMine = true; }
    }
    bool close = false;
    for (unsigned i = 0; i < N; i++) {
        f[i] = ls.signedDistance[i]; e[i] = f[i];
        if (m.nodes[i].isActive) { e[i] = f[i] - dt * (ls.gradient[i] * ls.velocity[i]); if (m.nodes[i].isDomain && e[i] > 0) e[i] = 0; }
    }
    for (unsigned k = 0; k < ls.nMines; k++) close = sym_or(close, sym_and(sym_lt(e[ls.mines[k]], 1), sym_lt(-1, e[ls.mines[k]])));
    if (mode == 0) sym_assume(sym_not(close)); else close = sym_fork(close);
    if (mode) { bool p = false, n = false, z = false; for (unsigned i = 0; i < N; i++) { int s = sgn(e[i]); (s > 0 ? p : s < 0 ? n : z) = true; } sym_assume(z || (p && n)); }
    std::vector<double> vel = ls.velocity, grad = ls.gradient; std::vector<int> act(N); for (unsigned i = 0; i < N; i++) act[i] = m.nodes[i].isActive;
    bool re = ls.update(dt);
    for (unsigned i = 0; i < N; i++) { sym_near(ls.velocity[i], vel[i], 0, "velocity untouched"); sym_near(ls.gradient[i], grad[i], 0, "gradient untouched"); }
    if (!close) {
        sym_check(!re, "no reinitialisation reported");
        for (unsigned i = 0; i < N; i++) { sym_near(ls.signedDistance[i], e[i], 1e-12, act[i] ? "moved by step x gradient x velocity, edge nodes clamped" : "inactive node unchanged"); sym_check((int)m.nodes[i].isActive == act[i], "band unchanged"); }
        sym_cover("stepped"); return;
    }
    sym_check(re, "reinitialisation reported"); sym_cover("reinitialised");
    LevelSet ref(w, h, noHoles, 0.5, mode == 2 ? 3 : 6, fixed); ref.signedDistance = e; ref.reinitialise();
    for (unsigned i = 0; i < N; i++) { sym_near(ls.signedDistance[i], ref.signedDistance[i], 1e-9, "field reinitialised"); sym_check(m.nodes[i].isActive == ref.mesh.nodes[i].isActive && m.nodes[i].isMine == ref.mesh.nodes[i].isMine, "band rebuilt"); }
    sym_check(ls.nNarrowBand == ref.nNarrowBand && ls.nMines == ref.nMines, "band counts rebuilt");
}
