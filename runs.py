# Which harness runs decide which property, and within which bounds.
R = "arithmetic on symbolic values is exact real arithmetic (IEEE rounding of those operations is outside the claim); concrete values keep IEEE arithmetic"
LEVEL_NOTE = {"*": [R, "symbolic executor, z3 and clang's IR generation are trusted; counterexamples are replayed natively before they are reported", "bounds of each run are listed under coverage.runs; nothing is claimed outside them"]}
LEVEL_NOTE["C02"] = ["IEEE-754 binary64 semantics, round to nearest"] + LEVEL_NOTE["*"][1:]
RUNS = {
 "C01": [dict(name="grid", h="c01_mesh.cpp", params=dict(MAX=5), thorough=dict(MAX=12), covers=["grid"], bounds="all widths and heights 1..MAX; probe coefficients arbitrary reals"),
         dict(name="large", h="c01_mesh.cpp", maxinstr=600000000, params=dict(LARGE=4), thorough=dict(LARGE=6), covers=["grid"], bounds="300x2, 1x300, 130x131, 257x256 (thorough also 65540x1, 1x65540): the corners and every k-th node and element; probe coefficients arbitrary reals")],
 "C02": [dict(name="locate", h="c02_locate.cpp", fp=True, params=dict(MAX=3, OTHER=1), thorough=dict(MAX=8, OTHER=3), covers=["located"], bounds="one coordinate any double in [0, size], the other at 3 positions; sizes up to MAX and OTHER"),
         dict(name="far", h="c02_locate.cpp", params=dict(LONG=300, OTHER=2), maxinstr=100000000, covers=["located"], bounds="exact reals: any coordinate in [254.25, 256] or [298.25, 300] of a grid 300 long, 1 or 2 across")],
 "C03": [dict(name="history", h="c03_heap.cpp", params=dict(OPS=5, CAP=4, PUSH=4), thorough=dict(OPS=7, CAP=4, PUSH=4), covers=["pop", "set", "end"], bounds="every history of OPS operations (push/pop/set any live entry) then drain; capacity CAP, PUSH insertions; arbitrary real values"),
         dict(name="orders", h="c03_heap.cpp", params=dict(OPS=9, CAP=7, PUSH=7, PRE=7, ORDERS=4), thorough=dict(OPS=11, CAP=9, PUSH=9, PRE=9, ORDERS=12), covers=["pop", "set", "end"], bounds="PRE insertions in ORDERS fixed value orders, then any OPS-PRE operations with arbitrary values, then drain"),
         dict(name="deep", h="c03_heap.cpp", params=dict(OPS=41, CAP=48, PUSH=44, PRE=40, ORDERS=4, DEEP=3), thorough=dict(OPS=42, ORDERS=2, DEEP=9), maxinstr=100000000, covers=["pop", "set", "end"], bounds="PRE insertions of fixed values in ORDERS orders, then OPS-PRE operations (insert, pop, change every DEEP-th entry) with arbitrary values, then drain"),
         dict(name="bulk", h="c03_heap.cpp", params=dict(OPS=7, CAP=6, PUSH=6, PRE=6), tiers=["thorough"], covers=["pop", "set", "end"], bounds="PRE insertions of arbitrary values, then every operation, then drain"),
         dict(name="refill", h="c03_heap.cpp", params=dict(OPS=5, CAP=2, PUSH=4), covers=["pop", "end"], bounds="capacity smaller than the number of insertions over the lifetime")],
}
FLD = "every field of a WxH grid: each node zero or of magnitude in [2^-16, 3/2] with either sign"
def bnd(sel, extra=[]):
    c = {13: ["crossing", "zero node point"], 14: ["segment", "cut edge", "saddle", "along the grid"], 16: ["cut", "saddle"], 19: ["perimeter"]}[sel]
    return [dict(name="cell", h="boundary.cpp", params=dict(SEL=sel, W=1, H=1), covers=c, bounds=FLD),
            dict(name="pair", h="boundary.cpp", params=dict(SEL=sel, W=2, H=1, PRE=1), covers=c, bounds=FLD + ", after another field was discretised with the same objects"),
            dict(name="large", h="boundary.cpp", params=dict(SEL=sel, W=20, H=16, BIG=6), maxinstr=200000000, covers=[x for x in c if x not in ("along the grid",)], bounds="a fixed busy field with zero nodes on a 20x16 grid, one of six nodes zero or of magnitude in [2^-16, 3/2] with either sign"),
            dict(name="block", h="boundary.cpp", params=dict(SEL=sel, W=3, H=3, BIG=1, BLOCK=1 if sel == 19 else 2, VARS=1 if sel == 19 else 2), thorough=dict(BLOCK=2, VARS={16: 8, 19: 3}.get(sel, 29)), covers=[x for x in c if x not in ("along the grid",)], bounds="busy fixed fields (quick 2, thorough 29, area 8; perimeter 1 and 3) on a 3x3 grid, the four nodes of its central element (perimeter: three in quick) zero or of magnitude in [2^-16, 3/2] with either sign")] + extra
def tgt(sel): return [dict(name="target", h="boundary.cpp", params=dict(SEL=sel, W=1, H=1, TARGET=1, PRE=1), thorough=dict(W=2, ZEROS=0), covers=["crossing" if sel == 13 else "segment"], bounds=FLD + " as the target of another shape, after another target was discretised")]
def act(sel): return [dict(name="outside", h="boundary.cpp", params=dict(SEL=sel, W=1, H=1, ACT=1, PRE=1), covers=["dead edge", "crossing"] if sel == 13 else ["segment", "cut edge"], bounds=FLD + "; every node in the band, outside it or masked, after another field was discretised with all of them in the band"),
            dict(name="partly", h="boundary.cpp", params=dict(SEL=sel, W=2, H=1, ACT=2, ZEROS=0, PRE=1), thorough=dict(MASKS=1), covers=["dead edge", "crossing"] if sel == 13 else ["segment", "cut edge"], bounds=FLD + ", no zero nodes; any one or two nodes outside the band (thorough: or one of them masked)")]
RUNS["C13"] = bnd(13, tgt(13) + act(13)); RUNS["C14"] = bnd(14, tgt(14) + act(14)); RUNS["C16"] = bnd(16); RUNS["C19"] = bnd(19)
RUNS["C15"] = [dict(name="square", h="c15_limits.cpp", params=dict(W=2, H=2), covers=["fixed", "near fixed", "free"], bounds="one negative node of any depth, an optional zero node, an optional fixed node, every move limit in [0.02, 0.98]; 2x2 grid"),
               dict(name="strip", h="c15_limits.cpp", params=dict(W=3, H=1), thorough=dict(W=5, H=2), covers=["fixed", "near fixed", "free"], bounds="same on a 3x1 grid (thorough 5x2)")]
RUNS["C17"] = [dict(name="planes", h="c17_normals.cpp", params=dict(MODE=0, W=3, H=3), thorough=dict(W=4, H=4), covers=["normal"], bounds="32 plane directions/slopes, every offset, 3x3 grid"),
               dict(name="shallow", h="c17_normals.cpp", params=dict(MODE=0, W=2, H=2, SHALLOW=11, DIRS=5), thorough=dict(W=3, H=3, DIRS=8), covers=["normal"], bounds="five directions with slopes scaled by 2^-11, every offset, 2x2"),
               dict(name="slopes", h="c17_normals.cpp", params=dict(MODE=1, W=2, H=2), covers=["normal"], bounds="every x slope in [1/4, 2], three y slopes, three offsets, 2x2 grid"),
               dict(name="bumped", h="c17_normals.cpp", params=dict(MODE=2, W=3, H=2), covers=["normal"], bounds="a tilted plane with any one node moved by up to 0.3 (direction) or 2 (unit length)")]
RUNS["C17"].append(dict(name="mirror", h="c31_symmetry.cpp", params=dict(W=2, H=1, ZEROS=0, NORMALS=1, NSYM=0), thorough=dict(H=2), covers=["normals"], bounds="mirrored, transposed and negated fields: every sign pattern, any one node of arbitrary magnitude in one of four bands of width 1/64 (one of them within 1/64 of zero); 2x1 (thorough 2x2)"))
RUNS["C31"] = [dict(name="cell", h="c31_symmetry.cpp", params=dict(W=1, H=1), covers=["compared"], bounds=FLD),
               dict(name="pair", h="c31_symmetry.cpp", params=dict(W=2, H=1, ZEROS=0), thorough=dict(ZEROS=1), covers=["compared"], bounds=FLD + " (quick: no zero nodes)"),
               dict(name="normals", h="c31_symmetry.cpp", params=dict(W=2, H=1, ZEROS=0, NORMALS=1, NSYM=0), thorough=dict(H=2), covers=["normals"], bounds="normals at the points: every sign pattern, any one node of arbitrary magnitude in one of four bands of width 1/64 (one of them within 1/64 of zero); 2x1 (thorough 2x2)"),
               dict(name="reinit", h="c31_symmetry.cpp", params=dict(W=1, H=1, REINIT=1, ZEROS=0, NSYM=2), thorough=dict(ZEROS=1, NSYM=4), covers=["reinit"], bounds=FLD),
               dict(name="rerow", h="c31_symmetry.cpp", params=dict(W=2, H=1, REINIT=1, ZEROS=0, NSYM=1), thorough=dict(ZEROS=1), covers=["reinit"], bounds="reinitialised values on 2x1 (thorough with zero nodes): every sign pattern, one node of any magnitude in [1/16, 3/2]")]

RUNS["C04"] = [dict(name="circles", h="c04_holes.cpp", params=dict(MAX=4), thorough=dict(MAX=8, CY=1), covers=["no holes", "one hole", "two holes", "three holes"], bounds="no holes on every grid up to MAX x MAX; one hole and two holes (either order) with arbitrary real x position and radii on a 2x2 grid (thorough: arbitrary y as well), or three with the first arbitrary"),
               dict(name="wide", h="c04_holes.cpp", params=dict(MAX=1, W=4, H=2), tiers=["thorough"], covers=["one hole"], bounds="same on 4x2")]
RUNS["C05"] = [dict(name="shapes", h="c05_polygon.cpp", covers=["inside", "outside"], bounds="seven polygons in both orientations (one with a repeated vertex, one concave, two with short edges), translated by any real along three directions; 2x2 grid", thorough=dict(W=3, H=3))]
RUNS["C06"] = [dict(name="built", h="c06_band.cpp", params=dict(MODE=0), thorough=dict(W=10, H=9, BW=4), covers=["built", "mine", "outside the band"], bounds="a hole of any radius in an 8x8 grid; band widths 3, 4 (thorough 3..6); fixed or free domain"),
               dict(name="rounds", h="c06_band.cpp", params=dict(MODE=1, W=7, H=1, BW=1), thorough=dict(W=9, H=2, BW=2), covers=["first round", "second round", "mine", "outside the band"], bounds="two successive reinitialisations or maskings of flat fronts, one of them at an arbitrary position, 7x1 grid (thorough 9x2)")]
RUNS["C06"] += [dict(name="forms", h="c06_band.cpp", params=dict(MODE=2, W=4, H=3), covers=["forms", "mine", "outside the band"], bounds="five constructor forms, hole or box of any size as the initial or as the target shape, 4x3 grid"),
                dict(name="many", h="c06_band.cpp", params=dict(MODE=3, W=40, H=1), thorough=dict(W=60, H=2), covers=["many mines"], bounds="a nearly flat front at any position on a 40x1 grid (thorough 60x2): up to 82 (183) mines")]
RUNS["C07"] = [dict(name="region", h="c07_mask.cpp", params=dict(W=2, H=2), thorough=dict(W=3, H=3, FREEY=1), covers=["masked", "front on the mask", "done"], bounds="circle, rectangle or triangle with arbitrary x position and size (thorough: and y), then none, a circle or a rectangle masked in addition; three fields; 2x2 grid"),
               dict(name="frozen", h="c07_frozen.cpp", covers=["masked", "done"], bounds="four masks on 4x4, boundary speed and time step arbitrary reals")]
RUNS["C08"] = [dict(name="cell", h="c08_reinit.cpp", params=dict(W=1, H=1), covers=["border", "away", "done"], bounds=FLD),
               dict(name="pair", h="c08_reinit.cpp", params=dict(W=2, H=1, NSYM=1, ZEROS=0, SMALL=1), thorough=dict(NSYM=2, ZEROS=1), covers=["border", "away", "done"], bounds="any NSYM consecutive nodes arbitrary, the others of either sign, the next one of ordinary magnitude or 2^-7"),
               dict(name="strip", h="c08_reinit.cpp", params=dict(W=3, H=1, NSYM=1, ZEROS=0, SMALL=1), thorough=dict(NSYM=2, ZEROS=1), covers=["border", "away", "done"], bounds="same on 3x1"),
               dict(name="square", h="c08_reinit.cpp", params=dict(W=2, H=2, NSYM=1, ZEROS=0), covers=["border", "away", "done"], bounds="same on 2x2", tiers=["thorough"]),
               dict(name="large", h="c08_reinit.cpp", params=dict(W=18, H=14, BIG=2), thorough=dict(BIG=6), maxinstr=200000000, covers=["border", "away", "done"], bounds="a fixed wavy field on an 18x14 grid, one of BIG nodes of either sign and magnitude in [416/1024, 417/1024]"),
               dict(name="tiny", h="c08_reinit.cpp", params=dict(W=1, H=1, TINY=1), covers=["border", "away", "done"], bounds="magnitudes down to 2^-90")]
RUNS["C09"] = [dict(name="straight", h="c09_march.cpp", params=dict(MODE=0, W=7, H=1), thorough=dict(W=9, H=2), covers=["line", "bar"], bounds="a line or a bar at any position along either axis, two field scales, both signs, 7x1 (thorough 9x2)"),
               dict(name="fields", h="c09_march.cpp", params=dict(MODE=1, W=3, H=1, NSYM=1, PATS=5), thorough=dict(W=2, H=2, PATS=8), covers=["away", "equation"], bounds="five sign patterns on 3x1 (thorough eight on 2x2), any one node of arbitrary magnitude"),
               dict(name="plane", h="c09_march.cpp", params=dict(MODE=1, W=3, H=3, NSYM=1, PATS=2, NARROW=1), covers=["away", "equation"], bounds="a negative corner or edge pair anywhere (32 placements) on a 3x3 grid, all magnitudes distinct, one of them any value in [13/32, 27/64]")]
RUNS["C10"] = [dict(name="shapes", h="c10_extend.cpp", params=dict(W=4, H=3), thorough=dict(W=6, H=6), covers=["uniform", "active", "inactive"], bounds="every velocity of every boundary point in [-2,2], six fronts, with and without fixed domain and mask, two band widths, 4x3 (thorough 6x6)")]
RUNS["C10"].append(dict(name="across", h="c10_extend.cpp", params=dict(MODE=1, W=5, H=2), thorough=dict(MODE=1, W=8, H=3), covers=["one front", "two fronts", "between grid lines"], bounds="one or two straight fronts, on or anywhere between the grid lines of a 5x2 grid (thorough 8x3), both directions and signs, every velocity of every point"))
RUNS["C11"] = [dict(name="planes", h="c11_gradient.cpp", params=dict(MODE=0, W=7, H=6), thorough=dict(W=9, H=8), covers=["plane"], bounds="every plane with slopes in [-2,2] and any offset, every node, any one node outside the band, velocity of either sign or zero; 7x6 (thorough 9x8)"),
               dict(name="small", h="c11_gradient.cpp", params=dict(MODE=0, SMALL=1), covers=["plane"], bounds="the same on all grids up to 3x3"),
               dict(name="mirror", h="c11_gradient.cpp", params=dict(MODE=1, W=7, H=6), thorough=dict(W=9, H=8, FIELDS=3), covers=["symmetric"], bounds="three wavy fields plus any plane with slopes in [-2,2], the gradient at any node, under mirroring, transposition and negation"),
               dict(name="stencil", h="c11_gradient.cpp", params=dict(MODE=2, W=7, H=6), thorough=dict(W=9, H=8), covers=["reference"], bounds="the same fields against the reference WENO scheme")]
RUNS["C12"] = [dict(name="step", h="c12_update.cpp", params=dict(MODE=0, W=2, H=2), thorough=dict(W=3, H=2), covers=["stepped"], bounds="every field in [-4,4], gradient in [0,2], velocity in [-2,2] and step in [1/1024,2] on a 2x2 grid (thorough 3x2), any one node inactive, mines not close"),
               dict(name="mines", h="c12_update.cpp", params=dict(MODE=1, W=2, H=1), thorough=dict(W=2, H=2), covers=["stepped", "reinitialised"], bounds="three fields on 2x1 (thorough 2x2), none, one or two mines, any step, one node of any velocity, against an explicit reinitialisation"),
               dict(name="chain", h="c12_update.cpp", params=dict(MODE=2, W=6, H=1), thorough=dict(W=8, H=2), covers=["stepped", "reinitialised"], bounds="a flat front at any offset, any speed and step, mines found by the code")]
RUNS["C18"] = [dict(name="build", h="c18_target.cpp", params=dict(MODE=0, W=3, H=3), thorough=dict(W=4, H=4), covers=["holes", "mixed", "points"], bounds="all three constructors with none, one or three initial holes, target circle of any radius or target box at any x position on 3x3 (thorough 4x4)"),
               dict(name="outside", h="c18_target.cpp", params=dict(MODE=0, W=10, H=9, BIG=1), covers=["holes", "mixed", "points"], bounds="same on 10x9, where nodes lie outside the narrow band: fixed target shapes, initial circle of any radius or initial box at any x position"),
               dict(name="cell", h="c18_target.cpp", params=dict(MODE=1, W=1, H=1), covers=["target"], bounds=FLD + "; any evolving field, all/none/some nodes in its band"),
               dict(name="pair", h="c18_target.cpp", params=dict(MODE=1, W=2, H=1, ZEROS=0), thorough=dict(ZEROS=1), covers=["target"], bounds="same on 2x1")]
RUNS["C23"] = [dict(name="roundtrip", h="c23_io.cpp", params=dict(SEL=23, MAX=2), thorough=dict(MAX=3), covers=["binary", "text", "text with coordinates"], bounds="grids up to MAX x MAX, every field, velocity and gradient value in [-1000,1000], binary/text/text with coordinates, saved by name, data point (4 numbers) or data point and directory, loaded either way; a printed number stands for any value within half a unit of its last digit")]
RUNS["C24"] = [dict(name="exports", h="c23_io.cpp", params=dict(SEL=24, MAX=2), thorough=dict(MAX=3), covers=["level set VTK", "level set text", "points", "segments", "area VTK", "area text"], bounds="all six exports in all forms and options, grids up to MAX x MAX, arbitrary values; three points and two segments")]
RUNS["C25"] = [dict(name="shapes", h="c25_load.cpp", covers=["binary", "coordinates", "plain"], bounds="text files of 0, N-1, N, N+1 or 2N lines with one irregular line anywhere (too few or many columns, a word, empty, truncated), of the other layout, without final newline, or missing; binary files of 0, 4N, 8N-8, 8N-1, 8N, 8N+1, 8N+8 bytes or missing; arbitrary values; 1x1 and 2x1 grids, by name and by data point")]
RUNS["C20"] = [dict(name="quadratic", h="c20_sens.cpp", params=dict(MODE=0), covers=["quadratic"], bounds="every quadratic objective with coefficients in [-4,4], position in [-10,10]^2, normal in [-1,1]^2, length in [1/64,4], step in [2^-13,1/2]"),
               dict(name="restore", h="c20_sens.cpp", params=dict(MODE=1), fp=True, covers=["restored"], bounds="every double coordinate in [0,1000] and normal in [-1,1]: bit-exact restoration")]
RUNS["C21"] = [dict(name="chain", h="c21_ito.cpp", params=dict(MODE=0), covers=["corrected", "done"], bounds="three points, one at any x offset and with any length, five normals each, open/closed/isolated, any sensitivities and temperature in [0,4]"),
               dict(name="field", h="c21_ito.cpp", params=dict(MODE=1, W=2, H=2), thorough=dict(W=3, H=3), covers=["corrected", "done"], bounds="three discretised fields, any sensitivities and temperature")]
RUNS["C26"] = [dict(name="stream", h="c26_seed.cpp", params=dict(PRE=2, POST=2), thorough=dict(PRE=3, POST=4), shadow=["rnd"], covers=["seeded", "fresh", "uniform", "scaled", "top", "bottom", "end"], bounds="every history of PRE draws of four kinds before and POST after seeding, three seeds; the engine and the distributions are a model in which each draw is an arbitrary function of seed, position and kind, and normal_distribution keeps its second variate as in libstdc++")]
RUNS["C22"] = [dict(name="noise", h="c22_noise.cpp", params=dict(MODE=0), shadow=["rnd"], covers=["kept", "reduced", "done"], bounds="every temperature in [2^-10,4] at step 1/2 and every step in [1/128,8] at temperature 1/8, three move limits, arbitrary draws, velocity and length of one point; random numbers from the model of C26"),
               dict(name="cold", h="c22_noise.cpp", params=dict(MODE=1), shadow=["rnd"], covers=["cold", "extended", "done"], bounds="temperature zero, every velocity, step and draw"),
               dict(name="extend", h="c22_noise.cpp", params=dict(MODE=2), shadow=["rnd"], covers=["extended", "done"], bounds="extension of arbitrary perturbed velocities")]
OPT = dict(h="c27_opt.cpp", also=["Optimise"], shadow=["nlo"])
RUNS["C27"] = [dict(OPT, name="limits", params=dict(SEL=27, N=2, M=1, TABLES=3, STARTS=3), covers=["done", "fixed", "edge", "roundoff"], bounds="two points, one constraint; every constraint distance in [-8,8], side limit, and solver outcome within its bounds, incl. a round-off failure before; two sensitivity tables, either move limit, minimise or maximise, fixed point, kind of constraint by case"),
               dict(OPT, name="pair", params=dict(SEL=27, N=3, M=2, TABLES=2, STARTS=1, TFIX=1, DOMAIN=0), covers=["done", "fixed", "roundoff"], bounds="three points, two constraints, one distance arbitrary in [-8,8], the other near or far; outcomes at the corners and centre of the bounds, incl. a round-off failure before"),
               dict(OPT, name="stubborn", params=dict(SEL=27, N=2, M=1, TABLES=1, STARTS=1, TFIX=1, DOMAIN=0, ROUNDS=12), covers=["done", "roundoff"], bounds="up to twelve round-off failures before a solution"),
               dict(OPT, name="free", params=dict(SEL=27, N=1, M=0, ROUNDS=0), covers=["done", "edge"], bounds="one point, no constraint"),
               dict(OPT, name="sens", params=dict(SEL=27, N=2, M=0, ROUNDS=0, SYMS=1, TFIX=1, TABLES=1), thorough=dict(SEL=27, N=2, M=0, ROUNDS=0, SYMS=1, TFIX=1), covers=["done", "edge"], bounds="two points, no constraint, every sensitivity of one point in [1/4,2]"),
               dict(OPT, name="senscon", params=dict(SEL=27, N=2, M=1, ROUNDS=0, SYMS=2, TABLES=1, SYMD=9, TFIX=1), covers=["done", "edge"], bounds="every constraint sensitivity of one point in [1/4,2], outcomes at the corners and centre of the bounds", tiers=["thorough"])]
RUNS["C28"] = [dict(OPT, name="one", params=dict(SEL=28, N=2, M=1, LINEAR=1, ROUNDS=0), covers=["done", "measured", "dropped"], bounds="two points, one constraint, every constraint distance in [-8,8] and solver outcome; tables, flags and kinds by case"),
               dict(OPT, name="two", params=dict(SEL=28, N=2, M=2, LINEAR=1, ROUNDS=0), covers=["done", "one of two", "second kept"], bounds="two constraints"),
               dict(OPT, name="three", params=dict(SEL=28, N=3, M=3, LINEAR=1, ROUNDS=0, TABLES=3, STARTS=1, TFIX=1), covers=["done", "two of three", "one of three"], bounds="three points, three constraints, one distance arbitrary in [-8,8], the others near or far; outcomes at the corners and centre of the bounds"),
               dict(OPT, name="sens", params=dict(SEL=28, N=2, M=1, LINEAR=1, ROUNDS=0, SYMS=1, TABLES=1, SYMD=9, TFIX=1), covers=["done"], bounds="every objective sensitivity of one point in [1/4,2]"),
               dict(OPT, name="senscon", params=dict(SEL=28, N=2, M=1, LINEAR=1, ROUNDS=0, SYMS=2, TABLES=1, SYMD=9, TFIX=1), covers=["done"], bounds="every constraint sensitivity of one point in [1/4,2]")]
RUNS["C30"] = [dict(OPT, name="forms", h="c30_ctor.cpp", params=dict(MODE=0), covers=["built"], bounds="every move limit in [-4,4], plus 0, 1, -0, huge and denormal; band widths 0..8 and 4e9; five constructor forms (holes, points, holes+holes, holes+points, points+points), fixed or free domain, 4x3 grid"),
               dict(OPT, name="cheese", h="c30_ctor.cpp", params=dict(MODE=1), covers=["built"], bounds="the default constructor (Swiss cheese) on 76x77, band widths 2, 3, 6, every move limit"),
               dict(OPT, name="optimise", h="c30_ctor.cpp", params=dict(MODE=2), covers=["optimise"], bounds="every move limit, 0..3 multipliers, constraint distances and equality flags, 0 or 1 points")]
RUNS["C30"].append(dict(OPT, name="small", h="c30_ctor.cpp", maxinstr=200000000, params=dict(MODE=3), covers=["large"], bounds="default constructor with sides 1, 14, 15, 30, 44, 60, 74, 75, 150"))
RUNS["C32"] = [dict(name="place", h="c32_flat.cpp", params=dict(W=6, H=3, BASE=2, MODE=0), thorough=dict(W=9, H=5, BASE=4, BW=7, MODE=0), covers=["advanced", "area before", "area after"], bounds="one cycle, every front position within a cell, four speeds and three steps, four orientations, 6x3 (thorough 9x5)"),
               dict(name="speed", h="c32_flat.cpp", params=dict(W=6, H=3, BASE=2, MODE=1), thorough=dict(W=9, H=5, BASE=4, BW=7, MODE=1), covers=["advanced", "area before", "area after"], bounds="one cycle, every speed in [-1/2,1/2] and three steps, three positions"),
               dict(name="both", h="c32_flat.cpp", params=dict(W=6, H=3, BASE=2, MODE=2), thorough=dict(W=9, H=5, BASE=4, BW=7, MODE=2), covers=["advanced", "area before"], bounds="one cycle up to the updated field, every position and speed"),
               dict(name="twice", h="c32_flat.cpp", params=dict(W=13, H=9, BASE=6, MODE=1, CYCLES=2, MARGIN=3, ORIENT=1, BW=9, ATS=1, VCS=2, STEPS=1), thorough=dict(ORIENT=4, ATS=3, VCS=4), covers=["advanced", "area before", "area after", "second cycle"], bounds="two cycles, second one of arbitrary speed, three positions, checked three cells away from the edges, 13x9")]
RUNS["C29"] = [dict(name="tiny", h="c29_cycle.cpp", params=dict(MODE=0, W=1, H=1, ZEROS=1, FREE=0), covers=["cycled", "reinitialised", "updated"], bounds="whole cycle from every sign pattern incl. zeros of a 1x1 grid, the velocity of one point arbitrary in [-4,4] (far beyond the move limit), two steps, fixed or free domain, with and without reinitialising first"),
               dict(name="again", h="c29_cycle.cpp", params=dict(MODE=0, W=2, H=1, FREE=0, AGAIN=1), covers=["cycled", "reinitialised", "again"], bounds="the same on 2x1, followed by a second discretisation and reinitialisation"),
               dict(name="block", h="c29_cycle.cpp", params=dict(MODE=0, W=2, H=2, FREE=0, FIXED=0, AFTER=1), thorough=dict(AFTER=2, FIXED=1), covers=["cycled", "reinitialised"], bounds="the same on 2x2, free domain (thorough: fixed too, with areas and normals afterwards)"),
               dict(name="shapes", h="c29_cycle.cpp", params=dict(MODE=1, W=4, H=4, FREE=0, AFTER=1, BW=6), thorough=dict(BW=3), covers=["cycled", "reinitialised"], bounds="line, disc, chequerboard, stripes and saddle on 4x4, with and without a mask, velocity of one point arbitrary"),
               dict(name="field", h="c29_cycle.cpp", params=dict(MODE=0, W=1, H=1, SYMV=0, HALF=1, ZEROS=1), thorough=dict(W=2), covers=["cycled"], bounds="up to the gradients: every sign pattern, any one node arbitrary in [-2,2]; 1x1 (thorough 2x1)"),
               dict(name="refield", h="c29_cycle.cpp", params=dict(MODE=0, W=1, H=1, SYMV=0, HALF=2, ZEROS=1), covers=["cycled"], bounds="the same after reinitialisation"),
               dict(name="crowded", h="c29_cycle.cpp", params=dict(MODE=2, W=11, H=11, FREE=0, SYMV=0, HALF=2, FIXED=0), covers=["cycled", "crowded"], bounds="a bar of arbitrary width on 11x11 whose mines outgrow the initial table")]
