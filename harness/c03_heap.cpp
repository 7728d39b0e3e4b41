// C03: priority queue over every bounded history.
#include "sym.h"
#include "Heap.h"
using namespace slsm;
extern "C" void sym_main() {
    const int K = sym_param("OPS", 6), CAP = sym_param("CAP", 4); bool drain = sym_param("DRAIN", 1);
    int maxPush = sym_param("PUSH", 4), pre = sym_param("PRE", 0), ordered = sym_param("ORDERS", 0), deep = sym_param("DEEP", 0);
    Heap h(CAP);
    double val[96]; unsigned addr[96], handle[96]; bool live[96]; int n = 0, nlive = 0;
    if (ordered) { // the first PRE values come in a chosen order: rank[i] is the rank of the i-th insertion
        int o = sym_choice("order", -1, ordered), rank[96]; unsigned r = 12345 + 977 * o;
        for (int i = 0; i < pre; i++) rank[i] = i;
        for (int i = pre - 1; i > 0 && o > 0; i--) { r = r * 1103515245 + 12345; int j = (r >> 16) % (i + 1); int t = rank[i]; rank[i] = rank[j]; rank[j] = t; }
        double s[96]; for (int i = 0; i < pre; i++) { if (deep) { s[i] = 3 * i - 60; continue; } s[i] = sym_double("s", i, -100, 100); if (i) sym_assume(sym_lt(s[i - 1], s[i])); }
        for (int i = 0; i < pre; i++) val[i] = s[rank[i]];
    }
    for (int s = 0; s < K + 128; s++) {
        int op; // 0 stop/drain, 1 push, 2 pop, 3.. set entry
        if (s < pre) op = 1;
        else if (s < K) {
            int nOp = 2 + n; op = 1 + sym_choice("op", s, nOp);
            if (op == 1 && (nlive >= CAP || n >= maxPush)) sym_assume(false);
            if (op == 2 && nlive == 0) sym_assume(false);
            if (op >= 3 && (!live[op - 3] || (deep && (op - 3) % deep))) sym_assume(false);
        } else { if (!drain || nlive == 0) break; op = 2; }
        if (op == 1) {
            if (!ordered || s >= pre) val[n] = sym_double("v", n, -100, 100);
            addr[n] = 1000 + 7 * ((n * 5) % 97); handle[n] = h.push(addr[n], val[n]); live[n] = true;
            for (int i = 0; i < n; i++) if (live[i]) sym_check(handle[i] != handle[n], "live handles distinct");
            n++; nlive++;
        } else if (op == 2) {
            unsigned a = 0; double v = 0; h.pop(a, v); int who = -1;
            for (int i = 0; i < n; i++) if (live[i] && addr[i] == a) who = i;
            sym_check(who >= 0, "popped address is live");
            if (who < 0) return;
            sym_check(sym_eq(v, val[who]), "popped value belongs to the address");
            bool min = true; for (int i = 0; i < n; i++) if (live[i]) min = sym_and(min, sym_le(v, val[i]));
            sym_check(min, "popped value is a minimum");
            live[who] = false; nlive--; sym_cover("pop");
        } else {
            int i = op - 3; double v = sym_double("u", s, -100, 100); val[i] = v; h.set(handle[i], v); sym_cover("set");
        }
        sym_check(h.size() == (unsigned)nlive, "size"); sym_check(h.empty() == (nlive == 0), "empty");
        if (nlive) { double t = h.peek(); bool some = false, min = true; for (int i = 0; i < n; i++) if (live[i]) { min = sym_and(min, sym_le(t, val[i])); some = sym_or(some, sym_eq(t, val[i])); } sym_check(min, "peek is a minimum"); sym_check(some, "peek is a live value"); }
    }
    sym_cover("end");
}
