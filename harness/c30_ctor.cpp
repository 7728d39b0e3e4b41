// C30: construction with every move limit and band width; Optimise's own argument checks.
#include <nlopt.hpp>
#include "lib.h"
#include "Optimise.h"
nlopt::result nlopt::opt::optimize(std::vector<double>&, double&) { return nlopt::SUCCESS; }
static std::vector<Coord> square(double a, double b) { std::vector<Coord> p; p.push_back(Coord(a, a)); p.push_back(Coord(b, a)); p.push_back(Coord(b, b)); p.push_back(Coord(a, b)); p.push_back(Coord(a, a)); return p; }
extern "C" void sym_main() {
    int mode = sym_param("MODE", 0), form; double ml; int special = sym_choice("special", -1, 6);
    if (special == 0) ml = sym_double("ml", -1, -4, 4); else if (special == 1) ml = 0; else if (special == 2) ml = 1; else if (special == 3) ml = -0.0; else if (special == 4) ml = 1e300; else ml = 4.9e-324;
    bool okLimit = sym_fork(sym_and(sym_lt(0, ml), sym_lt(ml, 1)));
    if (mode == 2) {
        int nl = sym_choice("lambdas", -1, 4), nd = sym_choice("distances", -1, 4), ne = sym_choice("equalities", -1, 4), np = sym_choice("points", -1, 2);
        std::vector<double> lam(nl, 0.0), d(nd, 0.5); std::vector<bool> e(ne, true); std::vector<BoundaryPoint> p(np); for (int i = 0; i < np; i++) p[i].sensitivities.assign(4, 1.0); double dt = 3;
        bool ok = okLimit && np > 0 && nl >= 1 && nl - 1 == nd && (ne == 0 || ne == nd);
        sym_expect_exit(!ok); Optimise o(p, d, lam, dt, ml, false, e); sym_expect_exit(0);
        sym_check(ok, "invalid optimisation problems are rejected"); sym_check(lam.size() == (size_t)nl && dt == 3, "construction changes nothing"); sym_cover("optimise"); return;
    }
    if (mode == 3) {
        static const unsigned side[9] = {1, 14, 15, 30, 44, 60, 74, 75, 150}; unsigned w = side[sym_choice("w", -1, 9)], h = side[sym_choice("h", -1, 9)]; bool ok = okLimit && w >= 75 && h >= 75;
        sym_expect_exit(!ok); LevelSet l(w, h, ml, 6, false); sym_expect_exit(0); sym_check(ok, "meshes too small for the default structure are rejected"); sym_cover("large"); return;
    }
    unsigned W = mode == 1 ? 76 : 4, H = mode == 1 ? 77 : 3; form = mode == 1 ? 0 : 1 + sym_choice("form", -1, 5);
    int bi = sym_choice("band", -1, mode == 1 ? 3 : 10); static const unsigned wide[3] = {2, 3, 6}; unsigned bw = mode == 1 ? wide[bi] : bi < 9 ? bi : 4000000000u; bool fixedDomain = mode != 1 && sym_choice("fixed domain", -1, 2);
    bool ok = okLimit && bw > 2; std::vector<Hole> h1(1, Hole(2, 1.5, 1)), h2(1, Hole(1, 1, 0.75)); std::vector<Coord> p1 = square(0.5, 2.5), p2 = square(0.25, 2.75);
    sym_expect_exit(!ok); LevelSet* l = 0;
    switch (form) {
        case 0: l = new LevelSet(W, H, ml, bw, fixedDomain); break;
        case 1: l = new LevelSet(W, H, h1, ml, bw, fixedDomain); break;
        case 2: l = new LevelSet(W, H, p1, ml, bw, fixedDomain); break;
        case 3: l = new LevelSet(W, H, h1, h2, ml, bw, fixedDomain); break;
        case 4: l = new LevelSet(W, H, h1, p2, ml, bw, fixedDomain); break;
        default: l = new LevelSet(W, H, p1, p2, ml, bw, fixedDomain);
    }
    sym_expect_exit(0); sym_check(ok, "invalid parameters are rejected"); sym_cover("built");
    sym_check(sym_eq(l->moveLimit, ml), "move limit stored"); sym_check(l->mesh.width == W && l->mesh.height == H, "mesh size stored"); unsigned N = l->mesh.nNodes;
    sym_check(l->signedDistance.size() == N && l->velocity.size() == N && l->gradient.size() == N && l->narrowBand.size() == N && l->target.size() == (form > 2 ? N : 0), "arrays sized");
    unsigned active = 0; for (unsigned i = 0; i < N; i++) { active += l->mesh.nodes[i].isActive; sym_check(sym_isfinite(l->signedDistance[i]), "finite field"); bool in = std::abs(l->signedDistance[i]) < bw && !(fixedDomain && l->mesh.nodes[i].isDomain); sym_check(l->mesh.nodes[i].isActive == in, "band of the requested width"); }
    sym_check(active == l->nNarrowBand, "band counted");
}
