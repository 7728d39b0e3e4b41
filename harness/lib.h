// Shared helpers of the harnesses.
#pragma once
#include "sym.h"
#include <cmath>
#include <cstdlib>
#include <string>
#include <vector>
#include <algorithm>
#include "Boundary.h"
#include "FastMarchingMethod.h"
#include "Heap.h"
#include "Hole.h"
#include "InputOutput.h"
#include "LevelSet.h"
#include "Mesh.h"
#include "MersenneTwister.h"
#include "Sensitivity.h"
using namespace slsm;
static const std::vector<Hole> noHoles;
// A node value: positive, negative or (if allowed) exactly zero, of magnitude in [lo,hi].
// The case split is made up front; inside a case every real value is covered.
static inline double signedValue(const char* n, int i, double lo, double hi, bool zero = true) {
    int s = sym_choice("sign", i, zero ? 3 : 2); if (s == 2) return 0.0;
    double v = sym_double(n, i, lo, hi); return s ? -v : v;
}
static inline double minOf(double a, double b) { return a < b ? a : b; }
static inline int sgn(double v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
