// Discretisation, area fractions, limits and perimeter over every field of a small grid.
// SEL selects the property: 13 points, 14 segments, 16 area fractions, 19 perimeter.
#include "lib.h"
struct P2 { double x, y; };
static double shoelace(const std::vector<P2>& p) { double a = 0; for (size_t i = 0; i < p.size(); i++) { const P2 &q = p[i], &r = p[(i + 1) % p.size()]; a += q.x * r.y - r.x * q.y; } return 0.5 * a; }
extern "C" void sym_main() {
    const int sel = sym_param("SEL", 13); unsigned w = sym_param("W", 1), h = sym_param("H", 1), N = (w + 1) * (h + 1);
    bool target = sym_param("TARGET", 0), tiny = sym_param("TINY", 0), zeros = sym_param("ZEROS", 1); unsigned nsym = sym_param("NSYM", 99); const double lo = std::ldexp(1.0, -sym_param("LO", 16));
    LevelSet ls(w, h, noHoles, 0.5, 6, false);
    std::vector<double> f(N); std::vector<int> s(N);
    Boundary b;
    if (sym_param("PRE", 0)) { if (target) ls.target.assign(N, 0); // another field was discretised before with the same objects, all nodes in the band
        for (unsigned i = 0; i < N; i++) { double v = (((int)ls.mesh.nodes[i].coord.x + (int)ls.mesh.nodes[i].coord.y) % 2 ? -1 : 1) * (0.5 + 0.0625 * (i % 5)); if (target) ls.target[i] = v; else ls.signedDistance[i] = v; ls.mesh.nodes[i].isActive = true; }
        b.discretise(ls, target); ls.computeAreaFractions(b);
    }
    const int big = sym_param("BIG", 0); unsigned any = 0, var = big && sym_param("VARS", 0) ? sym_choice("var", -1, sym_param("VARS", 0)) : 0; // a busy concrete field with one arbitrary node
    if (big) { const unsigned at[6] = {sym_param("BLOCK", 0) ? w + 2 : N / 2 + 1, 0, N - 1, w, w + 1, N - w / 2}; any = at[sym_choice("at", -1, big)]; }
    for (unsigned i = 0; i < N; i++) {
        const bool blk = sym_param("BLOCK", 0) && (i == any + 1 || i == any + w + 1 || (i == any + w + 2 && sym_param("BLOCK", 0) > 1)); // further nodes of the block at any
        if (big && i != any && !blk) { f[i] = ((int)((i * 7919u + 13 * i * i + var * (i * i * i + 5)) % 29) - 14) / 16.0; if (!zeros && f[i] == 0) f[i] = 0.09375; ls.signedDistance[i] = f[i]; continue; }
        if (tiny) { f[i] = sym_double("f", i, -1.5, 1.5); }
        else if (i < nsym || big) { f[i] = signedValue("f", i, lo, 1.5, zeros); }
        else { int c = sym_choice("sign", i, 2); f[i] = (c ? -1.0 : 1.0) * (0.5 + 0.125 * i); }
        ls.signedDistance[i] = f[i];
    }
    if (!tiny) for (unsigned i = 0; i < N; i++) s[i] = sgn(f[i]);
    if (target) { ls.target = ls.signedDistance; for (unsigned i = 0; i < N; i++) ls.signedDistance[i] = i % 3 ? -1.25 : 0.5; }
    // nodes outside the band, and masked nodes: an edge is live if one of its ends is in the band or masked
    if (big) for (unsigned i = 0; i < N; i++) ls.mesh.nodes[i].isActive = true;
    const int act = sym_param("ACT", 0); std::vector<int> live(N, 1);
    if (act) {
        int p = sym_choice("out", -1, act == 2 ? N : 1), q = sym_choice("out2", -1, act == 2 ? N : 1);
        if (q > p) return;
        int one = act == 2 && sym_param("MASKS", 0) ? sym_choice("state", -1, 2) : 0; // the first one masked, or both outside
        for (unsigned i = 0; i < N; i++) { int c = act == 1 ? sym_choice("state", i, 3) : (int)i == p ? 1 + one : (int)i == q; Node& n = ls.mesh.nodes[i]; n.isActive = c == 0; n.isMasked = c == 2; live[i] = c != 1; }
    }
    b.discretise(ls, target);
    Mesh& m = ls.mesh;
    sym_check(b.nPoints == b.points.size() && b.nSegments == b.segments.size(), "counts match the lists");
    for (unsigned i = 0; i < N; i++) sym_check(sym_eq(target ? ls.target[i] : ls.signedDistance[i], f[i]), "field unchanged");
    if (tiny) { sym_cover("tiny"); return; }
    if (sel == 13) {
        // every edge with a strict sign change carries exactly one point, at the linear zero
        std::vector<int> used(b.nPoints, 0);
        for (unsigned y = 0; y <= h; y++) for (unsigned x = 0; x <= w; x++) for (int d = 0; d < 2; d++) {
            unsigned X = x + (d == 0), Y = y + (d == 1); if (X > w || Y > h) continue;
            unsigned p = m.xyToIndex[x][y], q = m.xyToIndex[X][Y];
            unsigned on = 0; unsigned who = 0;
            for (unsigned k = 0; k < b.nPoints; k++) { // points strictly inside this edge
                const Coord& c = b.points[k].coord; double t = d == 0 ? c.x - x : c.y - y, o = d == 0 ? c.y - y : c.x - x;
                if (sym_fork(sym_and(sym_eq(o, 0.0), sym_and(sym_lt(0.0, t), sym_lt(t, 1.0))))) { on++; who = k; }
            }
            if (s[p] * s[q] < 0 && !live[p] && !live[q]) { sym_check(on == 0, "no point on an edge outside the band"); sym_cover("dead edge"); }
            else if (s[p] * s[q] < 0) {
                sym_check(on == 1, "one point per sign change");
                double t = f[p] / (f[p] - f[q]); const Coord& c = b.points[who].coord; used[who] = 1;
                sym_near(c.x, x + (d == 0 ? t : 0), 1e-9, "point at the linear zero (x)"); sym_near(c.y, y + (d == 1 ? t : 0), 1e-9, "point at the linear zero (y)");
                sym_cover("crossing");
            } else sym_check(on == 0, "no point without a sign change");
        }
        for (unsigned k = 0; k < b.nPoints; k++) if (!used[k]) { // the others lie on zero nodes
            bool ok = false; for (unsigned i = 0; i < N; i++) if (s[i] == 0 && sym_fork(sym_and(sym_eq(b.points[k].coord.x, m.nodes[i].coord.x), sym_eq(b.points[k].coord.y, m.nodes[i].coord.y)))) ok = true;
            sym_check(ok, "other points lie on zero nodes"); sym_cover("zero node point");
        }
        for (unsigned k = 0; k < b.nPoints; k++) for (unsigned l = 0; l < k; l++) sym_check(sym_not(sym_and(sym_eq(b.points[k].coord.x, b.points[l].coord.x), sym_eq(b.points[k].coord.y, b.points[l].coord.y))), "points distinct");
        // the node -> point table lists exactly the points on the node or on its edges
        for (unsigned i = 0; i < N; i++) {
            sym_check(m.nodes[i].nBoundaryPoints <= 4, "points per node");
            for (unsigned k = 0; k < m.nodes[i].nBoundaryPoints; k++) {
                unsigned p = m.nodes[i].boundaryPoints[k]; sym_check(p < b.nPoints, "node point table in range");
                double dx = b.points[p].coord.x - m.nodes[i].coord.x, dy = b.points[p].coord.y - m.nodes[i].coord.y;
                sym_check(sym_and(sym_lt(dx * dx + dy * dy, 1.0), sym_eq(dx * dy, 0.0)), "node point table lists adjacent points");
            }
        }
        unsigned tot = 0, tab = 0; for (unsigned i = 0; i < N; i++) tab += m.nodes[i].nBoundaryPoints; for (unsigned k = 0; k < b.nPoints; k++) tot += used[k] ? 2 : 1;
        sym_check(tot == tab, "every point is registered with its nodes");
    }
    if (sel == 14) {
        std::vector<unsigned> deg(b.nPoints, 0); std::vector<double> half(b.nPoints, 0.0); double total = 0;
        std::vector<unsigned> inEl(m.nElements, 0);
        for (unsigned k = 0; k < b.nSegments; k++) {
            const BoundarySegment& g = b.segments[k];
            sym_check(g.start < b.nPoints && g.end < b.nPoints && g.start != g.end, "segment joins two points");
            sym_check(g.element < m.nElements, "segment element in range");
            const Coord &p = b.points[g.start].coord, &q = b.points[g.end].coord; const Coord& c = m.elements[g.element].coord;
            double dx = p.x - q.x, dy = p.y - q.y; double len = std::sqrt(dx * dx + dy * dy);
            sym_near(g.length, len, 1e-9, "segment length"); total += len; half[g.start] += 0.5 * len; half[g.end] += 0.5 * len; deg[g.start]++; deg[g.end]++;
            bool in = true; const Coord* e[2] = {&p, &q}; for (int j = 0; j < 2; j++) in = sym_and(in, sym_and(sym_and(sym_le(c.x - 0.5, e[j]->x), sym_le(e[j]->x, c.x + 0.5)), sym_and(sym_le(c.y - 0.5, e[j]->y), sym_le(e[j]->y, c.y + 0.5))));
            sym_check(in, "segment lies on its element"); inEl[g.element]++; sym_cover("segment");
        }
        sym_near(b.length, total, 1e-9, "total length");
        for (unsigned k = 0; k < b.nPoints; k++) {
            const BoundaryPoint& p = b.points[k];
            sym_near(p.length, half[k], 1e-9, "point length is half its segments");
            sym_check(p.nSegments == deg[k] && p.nNeighbours == deg[k], "point degree");
            sym_check(p.segments.size() >= deg[k] && p.neighbours.size() >= deg[k], "link tables large enough");
            if (!act) sym_check(deg[k] > 0, "every point belongs to a segment");
            for (unsigned j = 0; j < p.nSegments; j++) {
                unsigned g = p.segments[j]; sym_check(g < b.nSegments, "point segment in range");
                bool st = b.segments[g].start == k, en = b.segments[g].end == k; sym_check(st || en, "linked segment contains the point");
                sym_check(p.neighbours[j] == (st ? b.segments[g].end : b.segments[g].start), "neighbour is the other end");
                for (unsigned l = 0; l < j; l++) sym_check(p.segments[l] != g, "links distinct");
            }
            bool edge = sym_or(sym_or(sym_eq(p.coord.x, 0), sym_eq(p.coord.x, w)), sym_or(sym_eq(p.coord.y, 0), sym_eq(p.coord.y, h)));
            if (!act && !sym_fork(edge)) { sym_check(deg[k] % 2 == 0, "interior points have even degree"); sym_cover("interior point"); }
        }
        // a front running along a grid edge, with structure on one side and none on the other, is one segment
        for (unsigned e = 0; e < m.nElements; e++) for (int j = 0; j < 4; j++) {
            const Element& el = m.elements[e]; unsigned p = el.nodes[j], q = el.nodes[(j + 1) % 4]; if (!live[p] && !live[q]) continue; unsigned u = el.nodes[(j + 2) % 4], v = el.nodes[(j + 3) % 4];
            if (s[p] || s[q] || s[u] < 0 || s[v] < 0 || s[u] + s[v] == 0) continue; // structure here
            bool isVoid = true; for (unsigned g = 0; g < m.nElements; g++) if (g != e) { bool hp = false, hq = false, in = false; for (int z = 0; z < 4; z++) { unsigned n = m.elements[g].nodes[z]; if (n == p) hp = true; if (n == q) hq = true; if (s[n] > 0) in = true; } if (hp && hq) { bool out = false; for (int z = 0; z < 4; z++) if (s[m.elements[g].nodes[z]] < 0) out = true; isVoid = out && !in; } }
            if (!isVoid) continue;
            unsigned n = 0; const Coord &P = m.nodes[p].coord, &Q = m.nodes[q].coord;
            for (unsigned k = 0; k < b.nSegments; k++) { const Coord &A = b.points[b.segments[k].start].coord, &B = b.points[b.segments[k].end].coord; bool d = sym_fork(sym_and(sym_and(sym_eq(A.x, P.x), sym_eq(A.y, P.y)), sym_and(sym_eq(B.x, Q.x), sym_eq(B.y, Q.y)))), r = sym_fork(sym_and(sym_and(sym_eq(B.x, P.x), sym_eq(B.y, P.y)), sym_and(sym_eq(A.x, Q.x), sym_eq(A.y, Q.y)))); if (d || r) n++; }
            sym_check(n == 1, "front along a grid edge is one segment"); sym_cover("along the grid");
        }
        for (unsigned e = 0; e < m.nElements; e++) {
            const Element& el = m.elements[e]; sym_check(el.nBoundarySegments == inEl[e], "element segment count");
            sym_check(el.boundarySegments.size() >= el.nBoundarySegments, "element table large enough");
            for (unsigned j = 0; j < el.nBoundarySegments; j++) { unsigned g = el.boundarySegments[j]; sym_check(g < b.nSegments, "element segment in range"); sym_check(b.segments[g].element == e, "element lists its segments"); for (unsigned l = 0; l < j; l++) sym_check(el.boundarySegments[l] != g, "element links distinct"); }
            // opposite corners of a segment are separated: each cut edge of the element ends one segment of it
            bool whole = true; for (int j = 0; j < 4; j++) if (!live[el.nodes[j]] && !live[el.nodes[(j + 1) % 4]]) whole = false;
            if (whole) for (int j = 0; j < 4; j++) {
                unsigned p = el.nodes[j], q = el.nodes[(j + 1) % 4]; if (s[p] * s[q] >= 0) continue;
                double t = f[p] / (f[p] - f[q]); double X = m.nodes[p].coord.x + t * (m.nodes[q].coord.x - m.nodes[p].coord.x), Y = m.nodes[p].coord.y + t * (m.nodes[q].coord.y - m.nodes[p].coord.y);
                unsigned ends = 0; for (unsigned k = 0; k < b.nSegments; k++) if (b.segments[k].element == e) for (int z = 0; z < 2; z++) { const Coord& c = b.points[z ? b.segments[k].end : b.segments[k].start].coord; if (big ? sym_fork(sym_and(sym_le(std::fabs(c.x - X), 1e-9), sym_le(std::fabs(c.y - Y), 1e-9))) : sym_fork(sym_and(sym_eq(c.x, X), sym_eq(c.y, Y)))) ends++; }
                sym_check(ends == 1, "each cut edge ends one segment of the element"); sym_cover("cut edge");
            }
            // a segment never has an inside corner of its element on the outside: at a saddle the
            // pair of segments surrounds the corners whose sign differs from the centre
            bool sad = whole; for (int j = 0; j < 4; j++) if (s[el.nodes[j]] * s[el.nodes[(j + 1) % 4]] >= 0) sad = false;
            if (sad) {
                double sum = f[el.nodes[0]] + f[el.nodes[1]] + f[el.nodes[2]] + f[el.nodes[3]];
                if (sym_fork(sym_eq(sum, 0.0))) continue;
                int cs = sgn(sum); // corners with the other sign are cut off
                for (unsigned k = 0; k < b.nSegments; k++) if (b.segments[k].element == e) {
                    const Coord &p = b.points[b.segments[k].start].coord, &q = b.points[b.segments[k].end].coord; unsigned around = 0;
                    for (int j = 0; j < 4; j++) { const Coord& c = m.nodes[el.nodes[j]].coord; bool ap = sym_fork(sym_or(sym_eq(p.x, c.x), sym_eq(p.y, c.y))), aq = sym_fork(sym_or(sym_eq(q.x, c.x), sym_eq(q.y, c.y))); if (ap && aq) { around++; sym_check(s[el.nodes[j]] == -cs, "saddle segments cut off the corners opposite to the centre"); } }
                    sym_check(around == 1, "saddle segment surrounds one corner"); sym_cover("saddle");
                }
            }
        }
    }
    if (sel == 16) {
        ls.area = 5; for (unsigned e = 0; e < m.nElements; e++) m.elements[e].area = 0.375; // left over from another field
        double a = ls.computeAreaFractions(b), sum = 0;
        for (unsigned e = 0; e < m.nElements; e++) {
            const Element& el = m.elements[e]; sum += el.area; double cx = el.coord.x, cy = el.coord.y; double expect; bool tie = false;
            std::vector<P2> in; int nin = 0, nout = 0, ncut = 0;
            for (int j = 0; j < 4; j++) {
                unsigned p = el.nodes[j], q = el.nodes[(j + 1) % 4]; P2 A = {m.nodes[p].coord.x - cx, m.nodes[p].coord.y - cy}, B = {m.nodes[q].coord.x - cx, m.nodes[q].coord.y - cy};
                if (s[p] > 0) nin++; if (s[p] < 0) nout++;
                int sn = s[q], sp = s[el.nodes[(j + 3) % 4]]; if (s[p] > 0 || (s[p] == 0 && !(sn < 0 && sp < 0))) in.push_back(A); // a zero corner between two outside corners is not part of the shape
                if (s[p] * s[q] < 0) { double t = f[p] / (f[p] - f[q]); P2 c = {A.x + t * (B.x - A.x), A.y + t * (B.y - A.y)}; in.push_back(c); ncut++; }
            }
            if (!nout) expect = 1; else if (!nin) expect = 0;
            else if (ncut == 4) {
                double c4 = f[el.nodes[0]] + f[el.nodes[1]] + f[el.nodes[2]] + f[el.nodes[3]];
                int cs; if (sym_fork(sym_eq(c4, 0.0))) cs = 0; else cs = sgn(c4);
                double tri[2] = {0, 0}; // total area of the inside / outside corner triangles
                for (int j = 0; j < 4; j++) { unsigned p = el.nodes[j], q = el.nodes[(j + 1) % 4], r = el.nodes[(j + 3) % 4]; tri[s[p] > 0 ? 0 : 1] += 0.5 * (f[p] / (f[p] - f[q])) * (f[p] / (f[p] - f[r])); }
                if (cs == 0) { // a tie: the fraction must match the segments drawn
                    tie = true; bool sep = false; // is corner 0 cut off?
                    for (unsigned k = 0; k < el.nBoundarySegments; k++) { const Coord &p = b.points[b.segments[el.boundarySegments[k]].start].coord, &q = b.points[b.segments[el.boundarySegments[k]].end].coord; const Coord& c = m.nodes[el.nodes[0]].coord; if (sym_fork(sym_or(sym_eq(p.x, c.x), sym_eq(p.y, c.y))) && sym_fork(sym_or(sym_eq(q.x, c.x), sym_eq(q.y, c.y)))) sep = true; }
                    cs = sep ? -s[el.nodes[0]] : s[el.nodes[0]];
                }
                expect = cs > 0 ? 1 - tri[1] : tri[0]; sym_cover("saddle");
            } else { expect = shoelace(in); sym_cover("cut"); }
            sym_near(el.area, expect, 1e-9, tie ? "saddle tie fraction matches the segments" : "area fraction");
            if (expect != 0 && expect != 1) sym_check(sym_and(sym_le(-1e-9, el.area), sym_le(el.area, 1 + 1e-9)), "area fraction in [0,1]");
        }
        sym_near(a, sum, 1e-9, "returned total"); sym_near(ls.area, sum, 1e-9, "stored total");
    }
    if (sel == 19) {
        double dx = sym_double("dx", -1, -0.25, 0.25), dy = sym_double("dy", -1, -0.25, 0.25);
        for (unsigned k = 0; k < b.nPoints; k++) {
            double per = 0; for (unsigned g = 0; g < b.nSegments; g++) if (b.segments[g].start == k || b.segments[g].end == k) per += b.segments[g].length;
            sym_near(b.computePerimeter(b.points[k]), per, 1e-9, "perimeter of the unmoved point");
            BoundaryPoint moved = b.points[k]; moved.coord.x += dx; moved.coord.y += dy; double e2 = 0;
            for (unsigned g = 0; g < b.nSegments; g++) if (b.segments[g].start == k || b.segments[g].end == k) { const Coord& o = b.points[b.segments[g].start == k ? b.segments[g].end : b.segments[g].start].coord; double X = moved.coord.x - o.x, Y = moved.coord.y - o.y; e2 += std::sqrt(X * X + Y * Y); }
            sym_near(b.computePerimeter(moved), e2, 1e-9, "perimeter of the moved point"); sym_cover("perimeter");
        }
    }
    sym_cover("done");
}
