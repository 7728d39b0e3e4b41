// C27, C28: Optimise against a solver that may return anything within its bounds.
#include <nlopt.hpp>
#include "lib.h"
#include "Optimise.h"
static int SEL, rounds, attempts; static bool linear, toMax; static std::vector<double> final_x; static double final_f; static unsigned seen;
static std::vector<double> fvals, origin; static std::vector<bool> equalSeen;
static std::string nm(const char* s, int k) { return std::string(s) + std::to_string(k); }
nlopt::result nlopt::opt::optimize(std::vector<double>& x, double& f) {
    attempts++; seen = constraints.size();
    sym_check(lower.size() == n && upper.size() == n && x.size() == n && constraints.size() + 1 == n && objective.f != 0, "problem is complete");
    for (unsigned i = 0; i < n; i++) { sym_check(sym_lt(lower[i], upper[i]), "bounds ordered"); sym_check(sym_and(sym_le(lower[i] * (1 + 1e-9), x[i]), sym_le(x[i], upper[i] * (1 + 1e-9))), "starting point within the bounds"); }
    sym_check(maximise == toMax, "minimise or maximise as asked");
    if (rounds) { // a retry asks for less
        static std::vector<double> last; std::vector<double> now, none; std::vector<double> z0(n); for (unsigned c = 1; c < n; c++) { double o = constraints[c - 1].f(z0, none, constraints[c - 1].d); now.push_back(o); if (attempts > 1 && last.size() == now.size()) sym_check(sym_or(sym_eq(last[c - 1], 0), sym_and(sym_lt(now[c - 1] * last[c - 1], last[c - 1] * last[c - 1]), sym_le(0, now[c - 1] * last[c - 1]))), "a retry asks for a smaller change"); }
        last = now;
    }
    if (attempts <= rounds && sym_choice(nm("roundoff", attempts).c_str(), -1, 2)) { sym_cover("roundoff"); throw roundoff_limited(); }
    std::vector<double> z(n), y(n), none; for (unsigned i = 0; i < n; i++) { double t = sym_param("TFIX", 0) ? (double)sym_choice("tf", i, 3) * 0.5 : sym_double("t", i, 0, 1); y[i] = lower[i] + t * (upper[i] - lower[i]); }
    sym_assume(sym_or(sym_lt(1e-3 * upper[0], y[0]), sym_lt(y[0], 1e-3 * lower[0])));
    fvals.clear(); origin.clear(); equalSeen.clear();
    for (unsigned c = 0; c < n; c++) {
        Function& F = c ? constraints[c - 1] : objective; std::vector<double> g(n, 77.0), g2(n, 77.0);
        double v = F.f(y, g, F.d), o = F.f(z, g2, F.d), w = F.f(y, none, F.d); sym_check(g.size() == n, "gradient has one entry per multiplier");
        sym_near(v, w, 1e-9, "value does not depend on whether a gradient is wanted");
        if (linear) { double d = o; for (unsigned i = 0; i < n; i++) { d += g[i] * y[i]; sym_near(g[i], g2[i], 1e-9, "gradient constant"); } sym_near(v, d, 1e-7, "value agrees with the gradient"); }
        fvals.push_back(v); origin.push_back(o); equalSeen.push_back(F.equal);
        if (c && SEL == 28 && linear) {     // the smallest value over the box: is the constraint reachable on its own?
            double lo = o, hi = o; for (unsigned i = 0; i < n; i++) { double a = g[i] * lower[i], b = g[i] * upper[i]; bool s = sym_fork(sym_lt(a, b)); lo += s ? a : b; hi += s ? b : a; }
            sym_check(sym_le(lo, 1e-9), "constraint can be met within the bounds"); if (F.equal) sym_check(sym_le(-1e-9, hi), "equality can be met within the bounds");
        }
    }
    x = y; f = fvals[0]; final_x = x; final_f = f; return (result)(sym_choice("code", -1, 2) ? MAXEVAL_REACHED : XTOL_REACHED);
}
extern "C" void sym_main() {
    SEL = sym_param("SEL", 27); unsigned N = sym_param("N", 2), M = sym_param("M", 1); rounds = sym_param("ROUNDS", 1); linear = sym_param("LINEAR", 0); int sy = sym_param("SYMS", 0), dm = sym_param("DOMAIN", 1), tab = sym_param("TABLES", 2); toMax = sym_choice("max", -1, 2);
    // sensitivities, per function and point
    static const double S[4][4][3] = {{{0.5, 1, -0.25}, {1, -1, 0.5}, {-0.5, 0.25, 1}, {0.75, 0.5, 0.25}}, {{-1, 0.5, 2}, {-1, -1, -1}, {0.125, 1, -0.5}, {1, -0.25, 1}}, {{1, 0.75, 0.5}, {1, 0.625, 0.5}, {2, 0.5, 1}, {0.5, 0.5, 1}}, {{2, -4, 1}, {0.5, 0.5, 4}, {1, 1, 1}, {-1, 1, 1}}};
    int table = sym_choice("table", -1, tab); int fixedPoint = N > 1 ? sym_choice("fixed point", -1, 2) : 0; double mx = sym_choice("max move", -1, 2) ? 0.875 : 0.5;
    std::vector<BoundaryPoint> p(N); std::vector<std::vector<double> > s(N, std::vector<double>(M + 1));
    for (unsigned i = 0; i < N; i++) {
        for (unsigned k = 0; k <= M; k++) s[i][k] = S[table][k][i];
        if (sy && i == 0) s[i][sy - 1] = sym_double("s", sy - 1, 0.25, 2) * (table == 1 ? -1 : 1);
        p[i].sensitivities = s[i]; p[i].length = i == 1 ? 0.5 : 1; p[i].isFixed = fixedPoint && i == N - 1; p[i].isDomain = !linear && i < (unsigned)dm && sym_choice("domain", i, 2); p[i].velocity = 99;
        p[i].negativeLimit = p[i].isDomain ? -sym_double("limit", i, 0, 0.875) : -mx; p[i].positiveLimit = mx; }
    std::vector<double> dist(M), lam(M + 1); std::vector<bool> eq; int kind = M ? sym_choice("kind", -1, 3) : 0;
    for (unsigned k = 0; k < M; k++) { dist[k] = k == (unsigned)sym_param("SYMD", 0) ? sym_double("dist", k, -8, 8) : sym_choice("far", k, 2) ? 16 : -0.125; if (kind) eq.push_back(kind == 1 || k == 1); }
    std::vector<double> given = dist; int start = sym_choice("start", -1, sym_param("STARTS", 2)); for (unsigned k = 0; k <= M; k++) lam[k] = start ? ((k == 0) == (start == 1) ? -60.0 : 40.0) : 0; double dt = -5;
    std::vector<BoundaryPoint> before = p; std::vector<double> start_lam = lam;
    { Optimise o(p, dist, lam, dt, mx, toMax, eq); double df = o.solve(); if (SEL == 27 && N == 1) o.queryReturnCode();
      sym_check(attempts >= 1, "the solver was asked"); sym_check(lam.size() == M + 1, "multipliers keep their number");
      std::vector<double> z(N); double change = 0, most = 0;
      for (unsigned i = 0; i < N; i++) { z[i] = p[i].velocity * dt; if (!p[i].isFixed) change += z[i] * s[i][0] * p[i].length; }
      if (SEL == 27) {
          sym_check(sym_lt(0, dt), "time step positive"); sym_near(dt, sym_fork(sym_lt(0, lam[0])) ? lam[0] : -lam[0], 1e-9, "time step is the magnitude of the objective multiplier");
          for (unsigned i = 0; i < N; i++) {
              if (p[i].isFixed) { sym_near(z[i], 0, 1e-9, "fixed points do not move"); sym_cover("fixed"); continue; }
              sym_check(sym_and(sym_le(z[i], mx * 1.0000001), sym_le(-mx * 1.0000001, z[i])), "displacement within the limit");
              if (p[i].isDomain) { sym_check(sym_le(p[i].negativeLimit - 1e-7, z[i]), "outward limit of edge points"); sym_cover("edge"); }
          }
      } else {
          for (unsigned i = 0; i < N; i++) if (!p[i].isFixed) { double d = 0; for (unsigned k = 0; k <= M; k++) d += lam[k] * s[i][k]; sym_near(z[i], d, 1e-7, "displacement is the combination of the reported multipliers"); }
          sym_near(df, change, 1e-7, "reported change is that of the displacements");
          bool full = true; double top = 0; for (unsigned i = 0; i < N; i++) full = sym_and(full, sym_and(sym_lt(z[i], mx * 0.999), sym_lt(-mx * 0.999, z[i])));
          unsigned a = 0;
          for (unsigned k = 0; k < M; k++) {
              double c = 0; for (unsigned i = 0; i < N; i++) if (!p[i].isFixed) c += z[i] * s[i][k + 1] * p[i].length;
              bool e = kind == 0 ? false : kind == 1 || k == 1;
              if (seen == M) {
                  sym_check(equalSeen[k + 1] == e, "kind of constraint"); double d = given[k];
                  if (sym_fork(sym_and(full, sym_and(sym_lt(-0.0625, d), sym_lt(d, 0.0625))))) { sym_near(fvals[k + 1] * d, origin[k + 1] * (d - c), 1e-7, "constraint measures the distance left"); sym_check(sym_or(sym_and(sym_le(0, d), sym_le(origin[k + 1], 0)), sym_and(sym_le(d, 0), sym_le(0, origin[k + 1]))), "constraint is satisfied on the right side"); sym_cover("measured"); }
              } else if (M == 1) { sym_check(!e, "equality constraints are kept"); sym_check(sym_le(c, given[k] / 0.98), "only constraints out of reach are dropped"); sym_near(lam[k + 1], 0, 0, "dropped constraints have no multiplier"); sym_cover("dropped"); }
          }
          if (M == 2 && seen < 2) { sym_check(kind != 1 && (kind == 0 || seen == 1), "equality constraints are kept"); if (seen == 1) sym_check(equalSeen[1] == (kind == 2), "kind of the constraint that is left"); }
          if (M == 3) { unsigned given = kind == 1 ? 3 : kind == 2 ? 1 : 0, left = 0; for (unsigned k = 1; k < equalSeen.size(); k++) left += equalSeen[k]; sym_check(left == given, "equality constraints are kept, the others stay inequalities"); if (seen == 2) sym_cover("two of three"); if (seen == 1) sym_cover("one of three"); }
          if (M == 2 && seen == 1) sym_cover("one of two"); if (M == 2 && seen == 1 && !kind && sym_fork(sym_lt(0.001, lam[2]))) { sym_check(sym_eq(lam[1], 0), "multiplier of the dropped constraint is zero"); sym_cover("second kept"); }
      }
      for (unsigned i = 0; i < N; i++) { sym_check(p[i].length == before[i].length && p[i].isFixed == before[i].isFixed, "points otherwise unchanged"); for (unsigned k = 0; k <= M; k++) sym_check(sym_eq(p[i].sensitivities[k], s[i][k]), "sensitivities unchanged"); }
    }
    sym_cover("done");
}
