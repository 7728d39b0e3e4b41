// Part of harness/rnd/random.
#pragma once
#include <map>
#include <string>
#include <cstdint>
extern "C" { double sym_double(const char*, int, double, double); int sym_choice(const char*, int, int); }
namespace rndmodel {
    inline double real(char kind, unsigned seed, unsigned pos, double lo, double hi) {
        static std::map<std::string, double> m; std::string k(1, kind); k += std::to_string(seed); k += "_"; k += std::to_string(pos); k += "_";
        std::map<std::string, double>::iterator it = m.find(k); if (it != m.end()) return it->second; double v = sym_double(k.c_str(), -1, lo, hi); m[k] = v; return v;
    }
    inline int pick(unsigned seed, unsigned pos, int n) {
        static std::map<std::string, int> m; std::string k = "int" + std::to_string(seed); k += "_"; k += std::to_string(pos); k += "_"; k += std::to_string(n); k += "_";
        std::map<std::string, int>::iterator it = m.find(k); if (it != m.end()) return it->second; int v = sym_choice(k.c_str(), -1, n); m[k] = v; return v;
    }
    struct Log { int normals, reals, ints; double mean, dev; int lo, hi; };
    inline Log& log() { static Log l; return l; }
    inline unsigned& hardware() { static unsigned h = 40; return h; }
}
namespace std {
    template <class T = int> struct uniform_int_distribution {
        struct param_type { T a, b; param_type(T x = 0, T y = 0) : a(x), b(y) {} }; T a, b; explicit uniform_int_distribution(T x = 0, T y = 2147483647) : a(x), b(y) {} void reset() {}
        template <class G> T operator()(G& g) { rndmodel::log().ints++; rndmodel::log().lo = a; rndmodel::log().hi = b; int k = rndmodel::pick(g.s, g.p, (int)(b - a + 1)); g.p += 1; return a + k; }
        template <class G> T operator()(G& g, const param_type& q) { uniform_int_distribution d(q.a, q.b); return d(g); }
    };
}
