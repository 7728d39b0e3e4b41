// C23: round trips.  C24: exported text.  SEL selects the property.
#include "lib.h"
#include <fstream>
#include <sys/stat.h>
static std::vector<std::string> lines(const std::string& f) { std::vector<std::string> v; std::string s; std::ifstream in(f.c_str()); sym_check(in.good(), "file exists under the documented name"); while (std::getline(in, s)) v.push_back(s); return v; }
struct Reader { // walks the tokens of a file
    std::vector<std::string> t; size_t k;
    Reader(const std::string& f) : k(0) { std::vector<std::string> l = lines(f); for (size_t i = 0; i < l.size(); i++) { std::string w; for (size_t j = 0; j <= l[i].size(); j++) if (j < l[i].size() && l[i][j] != ' ' && l[i][j] != '\t' && l[i][j] != '\r') w += l[i][j]; else if (!w.empty()) { t.push_back(w); w.clear(); } t.push_back("\n"); } }
    void skip() { while (k < t.size() && t[k] == "\n") k++; }
    void word(const char* w, const char* what) { skip(); sym_check(k < t.size() && t[k] == w, what); k++; }
    void words(const std::string& s, const char* what) { std::string w; for (size_t i = 0; i <= s.size(); i++) if (i < s.size() && s[i] != ' ') w += s[i]; else if (!w.empty()) { word(w.c_str(), what); w.clear(); } }
    void num(double v, double tol, const char* what) { skip(); bool ok = k < t.size(); sym_check(ok, what); if (!ok) return; const char* s = t[k].c_str(); char* e; double r = std::strtod(s, &e); sym_check(e != s && *e == 0, what); sym_near(r, v, tol, what); k++; }
    void eol(const char* what) { sym_check(k < t.size() && t[k] == "\n", what); k++; }
    void done() { skip(); sym_check(k == t.size(), "nothing else in the file"); }
};
static std::string num4(unsigned n) { std::string s = std::to_string(n); while (s.size() < 4) s = "0" + s; return s; }
static void leftover(const std::string& f) { FILE* p = fopen(f.c_str(), "w"); if (!p) return; for (int i = 0; i < 60; i++) fputs("77.125000 -3.500000 1.000000 of an earlier run\n", p); fclose(p); } // a longer file of that name
static const double TXT = 0.51e-6;
extern "C" void sym_main() {
    int sel = sym_param("SEL", 23); unsigned w = 1 + sym_choice("w", -1, sym_param("MAX", 2)), h = 1 + sym_choice("h", -1, sym_param("MAX", 2));
    LevelSet a(w, h, noHoles, 0.5, 6, false); unsigned N = a.mesh.nNodes; InputOutput io;
    const unsigned dps[4] = {0, 7, 123, 54321}; int form = sym_choice("form", -1, sel == 24 ? 4 : 3); unsigned dp = form ? dps[sym_choice("dp", -1, 4)] : 0;
    std::string dir = form == 2 ? "out" : ""; if (form == 2) mkdir("out", 0755); if (form == 3) { dir = "missing"; sym_expect_exit(1); }
    for (unsigned i = 0; i < N; i++) { a.signedDistance[i] = sym_double("f", i, -1000, 1000); a.velocity[i] = sym_double("v", i, -1000, 1000); a.gradient[i] = sym_double("g", i, -1000, 1000); }
    a.signedDistance[N - 1] = -2.0 / 3; a.velocity[N - 1] = 123.4567894321; a.gradient[N - 1] = 0.0416666666; // awkward numbers
    std::vector<double> f = a.signedDistance, v = a.velocity, g = a.gradient;
    if (sel == 23) {
        int fmt = sym_choice("format", -1, 3); bool xy = fmt == 2; std::string name = form == 0 ? "field.dat" : (dir.empty() ? "" : dir + "/") + "level-set_" + num4(dp) + (fmt == 0 ? ".bin" : ".txt");
        if (sym_choice("leftover", -1, 2)) leftover(name);
        if (fmt == 0) { if (form) io.saveLevelSetBIN(dp, a, dir); else io.saveLevelSetBIN(name, a); } else if (form) io.saveLevelSetTXT(dp, a, dir, xy); else io.saveLevelSetTXT(name, a, xy);
        LevelSet b(w, h, noHoles, 0.5, 6, false); for (unsigned i = 0; i < N; i++) { b.signedDistance[i] = 5; b.velocity[i] = 0.25 * i; b.gradient[i] = 1 + i; }
        bool byName = sym_choice("load by name", -1, 2); if (!form) byName = true;
        if (fmt == 0) { if (byName) io.loadLevelSetBIN(name, b); else io.loadLevelSetBIN(dp, b, dir); } else if (byName) io.loadLevelSetTXT(name, b, xy); else io.loadLevelSetTXT(dp, b, dir, xy);
        sym_check(b.signedDistance.size() == N, "one value per node");
        for (unsigned i = 0; i < N; i++) {
            sym_near(b.signedDistance[i], f[i], fmt == 0 ? 0 : TXT, fmt == 0 ? "binary values restored exactly" : "text values restored to printed precision");
            sym_check(sym_eq(a.signedDistance[i], f[i]) && sym_eq(a.velocity[i], v[i]) && sym_eq(a.gradient[i], g[i]), "saved object unchanged"); sym_check(b.velocity[i] == 0.25 * i && b.gradient[i] == 1 + i, "only the field is loaded");
        }
        sym_check(b.nNarrowBand == a.nNarrowBand && b.mesh.width == w && b.mesh.height == h, "mesh and band untouched");
        sym_cover(fmt == 0 ? "binary" : xy ? "text with coordinates" : "text"); return;
    }
    bool old = sym_choice("leftover", -1, 2);
    int what = sym_choice("what", -1, 6); std::string pre = dir.empty() ? "" : dir + "/", name;
    auto path = [&](const char* stem, const char* ext) { name = "file"; if (form) { name = pre; name += stem; name += "_"; name += num4(dp); } name += ext; if (old) leftover(name); };
    auto vtk = [&](Reader& r) {
        r.words("# vtk DataFile Version 3.0", "VTK header"); r.k = 0; while (r.k < r.t.size() && r.t[r.k] != "\n") r.k++; r.k++; while (r.k < r.t.size() && r.t[r.k] != "\n") r.k++; // title line
        r.words("ASCII DATASET RECTILINEAR_GRID", "VTK header"); r.words("DIMENSIONS " + std::to_string(w + 1) + " " + std::to_string(h + 1) + " 1", "VTK dimensions");
        r.words("X_COORDINATES " + std::to_string(w + 1), "VTK coordinates"); r.k++; for (unsigned i = 0; i <= w; i++) r.num(i, 1e-9, "VTK coordinates");
        r.words("Y_COORDINATES " + std::to_string(h + 1), "VTK coordinates"); r.k++; for (unsigned i = 0; i <= h; i++) r.num(i, 1e-9, "VTK coordinates"); r.words("Z_COORDINATES 1", "VTK coordinates"); r.k++; r.num(0, 1e-9, "VTK coordinates");
    };
    auto lost = [&]() { if (form == 3) sym_check(false, "export to a missing directory reported"); };
    auto section = [&](Reader& r, const char* n) { r.words("SCALARS " + std::string(n), "VTK section"); r.skip(); while (r.k < r.t.size() && r.t[r.k] != "\n") r.k++; r.words("LOOKUP_TABLE default", "VTK section"); };
    if (what == 0) { // level set, VTK
        bool vel = sym_choice("velocity", -1, 2), gr = sym_choice("gradient", -1, 2); path("level-set", ".vtk");
        if (form) io.saveLevelSetVTK(dp, a, vel, gr, dir); else io.saveLevelSetVTK(name, a, vel, gr);
        lost(); Reader r(name); vtk(r); r.words("POINT_DATA " + std::to_string(N), "VTK point count"); section(r, "distance"); for (unsigned i = 0; i < N; i++) r.num(f[i], TXT, "signed distance of every node in order");
        if (vel) { section(r, "velocity"); for (unsigned i = 0; i < N; i++) r.num(v[i], TXT, "velocity of every node in order"); } if (gr) { section(r, "gradient"); for (unsigned i = 0; i < N; i++) r.num(g[i], TXT, "gradient of every node in order"); }
        r.done(); sym_cover("level set VTK");
    } else if (what == 1) {
        bool xy = sym_choice("xy", -1, 2); path("level-set", ".txt"); if (form) io.saveLevelSetTXT(dp, a, dir, xy); else io.saveLevelSetTXT(name, a, xy);
        lost(); Reader r(name); for (unsigned i = 0; i < N; i++) { if (xy) { r.num(a.mesh.nodes[i].coord.x, TXT, "node coordinates"); r.num(a.mesh.nodes[i].coord.y, TXT, "node coordinates"); } r.num(f[i], TXT, "signed distance, velocity, gradient of every node in order"); r.num(v[i], TXT, "signed distance, velocity, gradient of every node in order"); r.num(g[i], TXT, "signed distance, velocity, gradient of every node in order"); r.eol("one line per node"); }
        r.done(); sym_cover("level set text");
    } else if (what <= 3) { // boundary points, segments
        Boundary b; b.nPoints = 3; b.points.resize(3); b.nSegments = 2; b.segments.resize(2); std::vector<double> c;
        for (unsigned i = 0; i < 3; i++) { c.push_back(b.points[i].coord.x = i == 2 ? 3.1415926535 : sym_double("px", i, 0, 4)); c.push_back(b.points[i].coord.y = i == 2 ? 1.0 / 3 : sym_double("py", i, 0, 4)); c.push_back(b.points[i].length = i == 2 ? 0.6666666666 : sym_double("pl", i, 0, 2)); }
        b.segments[0].start = sym_choice("s0", -1, 3); b.segments[0].end = sym_choice("e0", -1, 3); b.segments[1].start = 2; b.segments[1].end = 1;
        path(what == 2 ? "boundary-points" : "boundary-segments", ".txt");
        if (what == 2) { if (form) io.saveBoundaryPointsTXT(dp, b, dir); else io.saveBoundaryPointsTXT(name, b); } else if (form) io.saveBoundarySegmentsTXT(dp, b, dir); else io.saveBoundarySegmentsTXT(name, b);
        lost(); Reader r(name);
        if (what == 2) for (unsigned i = 0; i < 3; i++) { for (int k = 0; k < 3; k++) r.num(c[3 * i + k], TXT, "x, y and length of every boundary point in order"); r.eol("one line per boundary point"); }
        else for (unsigned i = 0; i < 2; i++) { unsigned e[2] = {b.segments[i].start, b.segments[i].end}; for (int k = 0; k < 2; k++) { r.num(c[3 * e[k]], TXT, "start and end of every segment in order"); r.num(c[3 * e[k] + 1], TXT, "start and end of every segment in order"); r.eol("one line per end point"); } r.eol("segments separated by a blank line"); }
        r.done(); for (unsigned i = 0; i < 3; i++) sym_check(sym_eq(b.points[i].coord.x, c[3 * i]) && sym_eq(b.points[i].coord.y, c[3 * i + 1]) && sym_eq(b.points[i].length, c[3 * i + 2]), "boundary unchanged"); sym_cover(what == 2 ? "points" : "segments");
    } else { // area fractions
        Mesh& m = a.mesh; for (unsigned i = 0; i < m.nElements; i++) m.elements[i].area = i && i == m.nElements - 1 ? 2.0 / 3 : sym_double("a", i, 0, 1);
        path("area", what == 4 ? ".vtk" : ".txt"); bool xy = what == 5 && sym_choice("xy", -1, 2);
        if (what == 4) { if (form) io.saveAreaFractionsVTK(dp, m, dir); else io.saveAreaFractionsVTK(name, m); } else if (form) io.saveAreaFractionsTXT(dp, m, dir, xy); else io.saveAreaFractionsTXT(name, m, xy);
        lost(); Reader r(name); if (what == 4) { vtk(r); r.words("CELL_DATA " + std::to_string(m.nElements), "VTK cell count"); section(r, "area"); }
        for (unsigned i = 0; i < m.nElements; i++) { if (xy) { r.num(m.elements[i].coord.x, TXT, "element coordinates"); r.num(m.elements[i].coord.y, TXT, "element coordinates"); } r.num(m.elements[i].area, TXT, "area of every element in order"); if (what == 5) r.eol("one line per element"); }
        r.done(); sym_cover(what == 4 ? "area VTK" : "area text");
    }
    for (unsigned i = 0; i < N; i++) sym_check(sym_eq(a.signedDistance[i], f[i]) && sym_eq(a.velocity[i], v[i]) && sym_eq(a.gradient[i], g[i]), "level set unchanged");
}
