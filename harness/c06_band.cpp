// C06: narrow band and mines after construction, reinitialisation and masking.
#include "lib.h"
static void band(LevelSet& ls, unsigned bw, bool fixed) {
    const Mesh& m = ls.mesh; std::vector<int> inBand(m.nNodes, 0), inMine(m.nNodes, 0);
    sym_check(ls.nNarrowBand <= m.nNodes && ls.nNarrowBand <= ls.narrowBand.size() && ls.nMines <= ls.mines.size(), "counts within the lists");
    for (unsigned i = 0; i < ls.nNarrowBand; i++) inBand[ls.narrowBand[i]]++;
    for (unsigned i = 0; i < ls.nMines; i++) inMine[ls.mines[i]]++;
    for (unsigned i = 0; i < m.nNodes; i++) {
        double a = std::fabs(ls.signedDistance[i]); bool can = !m.nodes[i].isMasked && !(fixed && m.nodes[i].isDomain);
        bool b = can && a < bw, mine = b && a > bw - 1;
        sym_check(inBand[i] == (b ? 1 : 0), "listed in the band exactly when near the front");
        sym_check(m.nodes[i].isActive == b, "active flag");
        sym_check(inMine[i] == (mine ? 1 : 0), "listed as a mine exactly at the band's edge");
        sym_check(m.nodes[i].isMine == mine, "mine flag");
        if (mine) sym_cover("mine"); if (can && !b) sym_cover("outside the band");
    }
}
extern "C" void sym_main() {
    unsigned w = sym_param("W", 8), h = sym_param("H", 8); bool fixed = sym_choice("fixed", -1, 2); unsigned bw = 3 + sym_choice("bw", -1, sym_param("BW", 2));
    if (sym_param("MODE", 0) == 0) {
        std::vector<Hole> H; H.push_back(Hole(0.5 * w + 0.375, 0.5 * h, sym_double("r", -1, 0.25, 7)));
        LevelSet ls(w, h, H, 0.5, bw, fixed); band(ls, bw, fixed); sym_cover("built"); return;
    }
    if (sym_param("MODE", 0) == 2) { // every constructor form: the band is that of the initial shape
        int form = sym_choice("form", -1, 5); bool big = sym_choice("which", -1, 2); double r = sym_double("r", -1, 0.25, big ? 7 : 1.5); double ri = big ? r : 0.875, rt = big ? 0.875 : r;
        std::vector<Hole> H(1, Hole(0.5 * w + 0.375, 0.5 * h, ri)), T(1, Hole(0.5 * w, 0.5 * h + 0.125, rt)); std::vector<Coord> P, Q;
        double s = big ? r / 8 : 0.25, xs[4] = {0, 1, 1, 0}, ys[4] = {0, 0, 1, 1}; for (int i = 0; i < 5; i++) { P.push_back(Coord(0.375 + s + (w - 1.0) * xs[i % 4], 0.25 + (h - 0.5) * ys[i % 4])); Q.push_back(Coord(0.75 + xs[i % 4], 0.75 + ys[i % 4])); }
        LevelSet* ls = form == 0 ? new LevelSet(w, h, H, 0.5, bw, fixed) : form == 1 ? new LevelSet(w, h, P, 0.5, bw, fixed) : form == 2 ? new LevelSet(w, h, H, T, 0.5, bw, fixed) : form == 3 ? new LevelSet(w, h, H, Q, 0.5, bw, fixed) : new LevelSet(w, h, P, Q, 0.5, bw, fixed);
        band(*ls, bw, fixed); sym_cover("forms"); return;
    }
    if (sym_param("MODE", 0) == 3) { // more mines than the list starts with
        std::vector<Hole> H(1, Hole(0.5 * w, -1000, sym_double("r", -1, 999, 1006))); LevelSet ls(w, h, H, 0.5, bw, false); band(ls, bw, false); if (ls.nMines > 25) sym_cover("many mines"); return;
    }
    LevelSet ls(w, h, noHoles, 0.5, bw, fixed); Mesh& m = ls.mesh;
    int which = sym_choice("which", -1, 2), flips = sym_choice("other", -1, 2);
    for (int r = 0; r < sym_param("ROUNDS", 2); r++) {
        double s = r == which ? sym_double("s", r, 0.0625, w - 0.0625) : flips ? 3.3125 : 5.625; bool flip = r == which && sym_choice("flip", r, 2);
        for (unsigned i = 0; i < m.nNodes; i++) ls.signedDistance[i] = flip ? s - m.nodes[i].coord.x : m.nodes[i].coord.x - s;
        int op = sym_choice("op", r, 2);
        if (op == 0) ls.reinitialise();
        else { std::vector<Coord> box(2); box[0].x = 1.5; box[0].y = -1; box[1].x = 3.5; box[1].y = h + 1.0; ls.mask(box); }
        band(ls, bw, fixed); sym_cover(r ? "second round" : "first round");
    }
}
