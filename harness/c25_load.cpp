// C25: files of every shape offered to the loaders.
#include "lib.h"
#include <fstream>
#include <cstdio>
extern "C" void sym_main() {
    unsigned w = 1 + sym_choice("w", -1, 2), h = 1; LevelSet a(w, h, noHoles, 0.5, 6, false); unsigned N = a.mesh.nNodes; InputOutput io;
    double mark = 12345; for (unsigned i = 0; i < N; i++) a.signedDistance[i] = mark;
    std::vector<double> f(N + 4); for (unsigned i = 0; i < N + 4; i++) f[i] = sym_double("f", i, -100, 100);
    int kind = sym_choice("kind", -1, 2); bool numbered = sym_choice("numbered", -1, 2); std::string name = kind ? (numbered ? "level-set_0012.bin" : "field.bin") : (numbered ? "level-set_0012.txt" : "field.txt");
    bool good = true, xy = false; std::remove(name.c_str());
    if (kind == 1) { // binary: any number of bytes
        int bytes = sym_choice("bytes", -1, 8); unsigned n = bytes == 0 ? N * 8 : bytes == 1 ? 0 : bytes == 2 ? N * 8 - 8 : bytes == 3 ? N * 8 - 1 : bytes == 4 ? N * 8 + 1 : bytes == 5 ? N * 8 + 8 : bytes == 6 ? N * 4 : 0;
        good = bytes == 0; if (bytes != 7) { std::ofstream o(name.c_str(), std::ios::out | std::ios::binary); o.write((const char*)&f[0], n); }
    } else { // text: lines x columns, with one irregular line
        xy = sym_choice("xy", -1, 2); int rows = sym_choice("rows", -1, 6), bad = sym_choice("bad", -1, 8); unsigned cols = xy ? 5 : 3;
        unsigned n = rows == 0 ? N : rows == 1 ? N - 1 : rows == 2 ? N + 1 : rows == 3 ? 0 : rows == 4 ? 2 * N : 0; good = rows == 0 && (bad == 0 || bad == 7); unsigned at = n ? sym_choice("at", -1, n) : 0;
        if (rows != 5) {
            FILE* o = fopen(name.c_str(), "w");
            for (unsigned i = 0; i < n; i++) {
                unsigned c = cols; bool irregular = i == at; // 0 none, 1 too few columns, 2 too many, 3 a word, 4 an empty line, 5 all lines of the other layout, 6 truncated last line, 7 no newline at the end
                if (bad == 1 && irregular) c = cols - 1; if (bad == 2 && irregular) c = cols + 1; if (bad == 4 && irregular) c = 0; if (bad == 5) c = xy ? 3 : 5; if (bad == 6 && i + 1 == n) c = 1;
                for (unsigned j = 0; j < c; j++) { if (bad == 3 && irregular && j == (unsigned)(xy ? 2 : 0)) fprintf(o, "word "); else if (j == (xy ? 2u : 0u)) fprintf(o, "%lf ", f[i % (N + 4)]); else fprintf(o, "%lf ", 0.5 * j); }
                if (bad != 7 || i + 1 < n) fprintf(o, "\n");
            }
            fclose(o);
        }
    }
    std::vector<double> vel = a.velocity;
    if (!good) sym_expect_exit(1);
    if (kind == 1) { if (numbered) io.loadLevelSetBIN(12, a); else io.loadLevelSetBIN(name, a); } else if (numbered) io.loadLevelSetTXT(12, a, "", xy); else io.loadLevelSetTXT(name, a, xy);
    sym_check(good, "malformed file accepted");
    if (good) { for (unsigned i = 0; i < N; i++) sym_near(a.signedDistance[i], f[i], kind ? 0 : 0.51e-6, "well-formed file loaded"); sym_cover(kind ? "binary" : xy ? "coordinates" : "plain"); }
}
