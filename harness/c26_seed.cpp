// C26: the random stream after seeding.
#include "lib.h"
#include <climits>
static double draw(MersenneTwister& r, int kind, double mean, double dev) { return kind == 0 ? r() : kind == 1 ? r.normal() : kind == 2 ? r.normal(mean, dev) : r.integer(-2, 1); }
extern "C" void sym_main() {
    int pre = sym_param("PRE", 2), post = sym_param("POST", 2); double mean = sym_double("mean", -1, -5, 5), dev = sym_double("dev", -1, 0.125, 5);
    MersenneTwister a, b; unsigned seed = sym_choice("seed", -1, 3); unsigned seeds[3] = {0, 1, 4294967295u}; seed = seeds[seed]; int how = sym_choice("how", -1, 2);
    if (how == 0) { // any history of draws, perhaps under an earlier seed, then the seed
        int early = sym_choice("reseeded", -1, 2); if (early) a.setSeed(17);
        for (int i = 0; i < pre; i++) { int k = sym_choice("before", i, 5); if (k < 4) draw(a, k, mean, dev); }
        a.setSeed(seed); b.setSeed(seed);
        sym_check(a.getSeed() == seed && b.getSeed() == seed, "reported seed"); sym_cover("seeded");
    } else { // a fresh generator is seeded with the seed it reports
        b.setSeed(a.getSeed()); sym_check(b.getSeed() == a.getSeed(), "reported seed"); seed = a.getSeed(); sym_cover("fresh");
    }
    for (int i = 0; i < post; i++) {
        int k = sym_choice("after", i, 4); double x = draw(a, k, mean, dev), y = draw(b, k, mean, dev);
        sym_near(x, y, 0, "draws after seeding depend on the seed alone"); sym_check(a.getSeed() == seed, "reported seed stays");
        if (k == 0) { sym_check(sym_and(sym_le(0, x), sym_lt(x, 1)), "uniform draws in [0,1)"); sym_cover("uniform"); }
        if (k == 3) { sym_check(x == std::floor(x) && x >= -2 && x <= 1, "integer draws in range"); sym_check(rndmodel::log().lo == -2 && rndmodel::log().hi == 1, "whole inclusive range"); sym_cover(x == 1 ? "top" : x == -2 ? "bottom" : "middle"); }
        if (k == 2) { MersenneTwister c; c.setSeed(seed); b.setSeed(seed); int fresh = sym_choice("same", -1, 2); double z = fresh ? c.normal(0, 1) : c.normal(); sym_near(b.normal(mean, dev), mean + dev * z, 1e-9, "normal draw scaled and shifted"); sym_cover("scaled"); return; }
    }
    sym_cover("end");
}
