// Stand-in for NLopt: a solver that may return any point within its bounds, may
// stop with any success code, and may give up with the documented exceptions.
#pragma once
#include <vector>
#include <stdexcept>
#include <limits>
#include <cmath>
#include <cerrno>
namespace nlopt {
    enum algorithm { GN_DIRECT = 0, LD_LBFGS = 11, LD_MMA = 24, LN_COBYLA = 25, LD_AUGLAG = 31, LD_SLSQP = 40, LD_CCSAQ = 41 };
    enum result { FAILURE = -1, INVALID_ARGS = -2, OUT_OF_MEMORY = -3, ROUNDOFF_LIMITED = -4, FORCED_STOP = -5, SUCCESS = 1, STOPVAL_REACHED = 2, FTOL_REACHED = 3, XTOL_REACHED = 4, MAXEVAL_REACHED = 5, MAXTIME_REACHED = 6 };
    typedef double (*vfunc)(const std::vector<double>&, std::vector<double>&, void*);
    struct roundoff_limited : std::runtime_error { roundoff_limited() : std::runtime_error("nlopt roundoff-limited") {} };
    struct forced_stop : std::runtime_error { forced_stop() : std::runtime_error("nlopt forced stop") {} };
    struct Function { vfunc f; void* d; bool equal; };
    class opt {
    public:
        opt(algorithm a, unsigned k) : alg(a), n(k), maximise(false) { objective.f = 0; objective.d = 0; objective.equal = false; }
        void set_lower_bounds(const std::vector<double>& v) { lower = v; }
        void set_upper_bounds(const std::vector<double>& v) { upper = v; }
        void set_lower_bounds(double v) { lower.assign(n, v); } void set_upper_bounds(double v) { upper.assign(n, v); }
        unsigned get_dimension() const { return n; } algorithm get_algorithm() const { return alg; }
        std::vector<double> get_lower_bounds() const { return lower; } std::vector<double> get_upper_bounds() const { return upper; }
        void remove_equality_constraints() { drop(true); } void remove_inequality_constraints() { drop(false); }
        void set_maxeval(int) {} void set_xtol_rel(double) {} void set_xtol_abs(double) {} void set_ftol_rel(double) {} void set_ftol_abs(double) {} void set_maxtime(double) {}
        void set_min_objective(vfunc f, void* d) { objective.f = f; objective.d = d; maximise = false; }
        void set_max_objective(vfunc f, void* d) { objective.f = f; objective.d = d; maximise = true; }
        void add_equality_constraint(vfunc f, void* d, double = 0) { Function c = {f, d, true}; constraints.push_back(c); }
        void add_inequality_constraint(vfunc f, void* d, double = 0) { Function c = {f, d, false}; constraints.push_back(c); }
        result optimize(std::vector<double>& x, double& f);     // in the harness
        void drop(bool eq) { std::vector<Function> k; for (unsigned i = 0; i < constraints.size(); i++) if (constraints[i].equal != eq) k.push_back(constraints[i]); constraints.swap(k); }
        algorithm alg; unsigned n; bool maximise; std::vector<double> lower, upper; Function objective; std::vector<Function> constraints;
    };
}
