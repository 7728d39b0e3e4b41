// C18: target shapes.  MODE 0: constructors; MODE 1: discretisation of any target next to any field.
#include "lib.h"
static std::vector<Hole> circle(double x, double y, double r) { return std::vector<Hole>(1, Hole(x, y, r)); }
static std::vector<Coord> box(double x, double s) { std::vector<Coord> p; double xs[4] = {x, x + s, x + s, x}, ys[4] = {0.75, 0.75, 2.25, 2.25}; for (int i = 0; i < 5; i++) p.push_back(Coord(xs[i % 4], ys[i % 4])); return p; }
static void sameBoundary(const Boundary& a, const Boundary& b) {
    sym_check(a.nPoints == b.nPoints && a.nSegments == b.nSegments && a.points.size() == b.points.size(), "as many points and segments as for the target field");
    if (a.nPoints != b.nPoints || a.nSegments != b.nSegments) return;
    for (unsigned i = 0; i < a.nPoints; i++) { sym_near(a.points[i].coord.x, b.points[i].coord.x, 1e-9, "points of the target field"); sym_near(a.points[i].coord.y, b.points[i].coord.y, 1e-9, "points of the target field"); sym_near(a.points[i].length, b.points[i].length, 1e-9, "lengths of the target field"); }
    for (unsigned i = 0; i < a.nSegments; i++) sym_check(a.segments[i].start == b.segments[i].start && a.segments[i].end == b.segments[i].end && a.segments[i].element == b.segments[i].element, "segments of the target field");
}
extern "C" void sym_main() {
    int mode = sym_param("MODE", 0);
    if (mode == 0) {
        unsigned w = sym_param("W", 3), h = sym_param("H", 3); bool fixed = sym_choice("fixed", -1, 2);
        int kind = sym_choice("kind", -1, 3); bool large = sym_param("BIG", 0); double r = large ? 0.8125 : sym_double("r", -1, 0.5, 1.5), t = large ? 1.140625 : sym_double("t", -1, 0.25, 1.75), u = large ? sym_double("u", -1, 1, 4) : 1; int which = sym_choice("which", -1, 2); if (which) r = 0.875; else t = 0.875;
        int many = kind < 2 && !which ? sym_choice("many", -1, 3) : 0; std::vector<Hole> hi = circle(1.5, 1.25, large ? u : which ? 4.25 : 1.125), ht = circle(1.25, 1.75, r); std::vector<Coord> pi = box(u, 1.25), pt = box(t, 1);
        if (many == 1) hi.clear(); if (many == 2) { hi.push_back(Hole(0.25, 2, 0.625)); hi.push_back(Hole(3, 0.5, 0.75)); }
        LevelSet* ls = kind == 0 ? new LevelSet(w, h, hi, ht, 0.5, 3, fixed) : kind == 1 ? new LevelSet(w, h, hi, pt, 0.5, 3, fixed) : new LevelSet(w, h, pi, pt, 0.5, 3, fixed);
        LevelSet* init = kind == 2 ? new LevelSet(w, h, pi, 0.5, 3, fixed) : new LevelSet(w, h, hi, 0.5, 3, fixed);
        LevelSet* targ = kind == 0 ? new LevelSet(w, h, ht, 0.5, 3, fixed) : new LevelSet(w, h, pt, 0.5, 3, fixed);
        targ->reinitialise();
        unsigned N = ls->mesh.nNodes; sym_check(ls->target.size() == N, "target has one value per node"); if (ls->target.size() != N) return;
        for (unsigned i = 0; i < N; i++) {
            sym_near(ls->target[i], targ->signedDistance[i], 1e-9, "target is the reinitialised target shape"); sym_near(ls->signedDistance[i], init->signedDistance[i], 1e-9, "field is the initial shape");
            sym_check(ls->mesh.nodes[i].isActive == init->mesh.nodes[i].isActive && ls->mesh.nodes[i].isMine == init->mesh.nodes[i].isMine, "narrow band of the initial shape");
        }
        sym_check(ls->nNarrowBand == init->nNarrowBand && ls->nMines == init->nMines, "band counts of the initial shape"); sym_near(ls->moveLimit, 0.5, 0, "move limit stored");
        sym_cover(kind == 0 ? "holes" : kind == 1 ? "mixed" : "points"); return;
    }
    unsigned w = sym_param("W", 2), h = sym_param("H", 1); bool zeros = sym_param("ZEROS", 1);
    LevelSet ls(w, h, noHoles, 0.5, 6, sym_choice("fixed", -1, 2)), ref(w, h, noHoles, 0.5, 6, false); Mesh& m = ls.mesh; unsigned N = m.nNodes;
    int band = sym_choice("band", -1, 3); // all, none or some nodes inside the narrow band of the evolving field
    std::vector<double> t(N), f(N);
    for (unsigned i = 0; i < N; i++) { t[i] = signedValue("t", i, 0.0625, 1.5, zeros); f[i] = sym_double("f", i, -2, 2); if (band == 1 || (band == 2 && i % 2)) m.nodes[i].isActive = false; }
    ls.target = t; ls.signedDistance = f; ref.signedDistance = t;
    Boundary b, c; b.discretise(ls, true); c.discretise(ref, false);
    sameBoundary(b, c); sym_near(b.length, c.length, 1e-9, "total length of the target boundary");
    for (unsigned i = 0; i < N; i++) { sym_check(sym_eq(ls.target[i], t[i]), "target unchanged"); sym_check(sym_eq(ls.signedDistance[i], f[i]), "field unchanged"); }
    // the evolving field is still discretised on its own afterwards
    for (unsigned i = 0; i < N; i++) { m.nodes[i].isActive = true; ls.signedDistance[i] = i % 2 ? 0.5 : -0.25; ref.signedDistance[i] = ls.signedDistance[i]; }
    b.discretise(ls, false); c.discretise(ref, false); sameBoundary(b, c); sym_cover("target");
}
