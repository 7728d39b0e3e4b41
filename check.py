#!/usr/bin/env python3
"""Decides one property: builds the harness with /repo's current sources, runs the
symbolic executor on it, replays every counterexample natively, writes evidence."""
import sys, os, json, subprocess, hashlib, shutil, tempfile, time, re
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SLSM_REPO", "/repo")
BUILD = os.path.join(HERE, ".build")
sys.path.insert(0, HERE)
from runs import RUNS, LEVEL_NOTE  # noqa
CLANG = ["clang++-18", "-std=c++11", "-O1", "-g", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops",
         "-ffp-contract=off", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-w"]
SRC = sorted(f[:-4] for f in os.listdir(os.path.join(REPO, "src")) if f.endswith(".cpp") and f != "Optimise.cpp")

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)

class BuildError(Exception): pass

def must(cmd, **kw):
    r = sh(cmd, **kw)
    if r.returncode: raise BuildError(" ".join(cmd) + "\n" + r.stdout)
    return r

def incs(run):
    return (["-I" + os.path.join(HERE, "harness", d) for d in run.get("shadow", [])] +
            ["-I" + os.path.join(HERE, "harness"), "-I" + os.path.join(REPO, "src")])

def units(run):
    us = [os.path.join(REPO, "src", s + ".cpp") for s in SRC + run.get("also", [])]
    return [os.path.join(HERE, "harness", run["h"])] + us

def build_bc(run, tmp, tag):
    us = units(run); objs = []
    def one(u):
        o = os.path.join(tmp, tag + "_" + os.path.basename(u) + ".bc")
        must(CLANG + run.get("defs", []) + incs(run) + ["-emit-llvm", "-c", u, "-o", o]); return o
    with ThreadPoolExecutor(8) as ex: objs = list(ex.map(one, us))
    bc = os.path.join(tmp, tag + ".bc")
    must(["llvm-link-18"] + objs + ["-o", bc])
    return bc

class Native:
    """Native builds of a run's harness, made on demand."""
    def __init__(self, run, tmp, tag): self.run, self.tmp, self.tag, self.bin = run, tmp, tag, {}
    def get(self, kind):
        if kind in self.bin: return self.bin[kind]
        fl = {"rel": ["g++", "-O3", "-DNDEBUG"], "asan": ["g++", "-O1", "-g", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"],
              "vg": ["g++", "-O1", "-g", "-DNDEBUG"]}[kind]
        us = units(self.run) + [os.path.join(HERE, "harness", "replay.cpp")]
        d = os.path.join(self.tmp, self.tag + "_" + kind); os.makedirs(d, exist_ok=True)
        def one(u):
            o = os.path.join(d, os.path.basename(u) + ".o")
            must(fl + ["-std=c++11", "-w", "-ffp-contract=off"] + self.run.get("defs", []) + incs(self.run) + ["-c", u, "-o", o]); return o
        with ThreadPoolExecutor(8) as ex: objs = list(ex.map(one, us))
        b = os.path.join(d, "replay"); must(fl + objs + ["-Wl,--wrap=exit", "-o", b]); self.bin[kind] = b; return b
    def exec(self, kind, values, timeout=30):
        b = self.get(kind); d = tempfile.mkdtemp(dir=self.tmp)
        env = dict(os.environ, SYM_VALUES=values, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0", UBSAN_OPTIONS="print_stacktrace=1")
        cmd = [b]
        if kind == "vg": cmd = ["valgrind", "-q", "--error-exitcode=42", b]
        try:
            r = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
            return r.returncode, r.stdout.decode("latin1")
        except subprocess.TimeoutExpired: return "timeout", ""
        finally: shutil.rmtree(d, ignore_errors=True)

def confirm(nat, cand, values):
    """Does the counterexample reproduce on the real code?  Returns text or None."""
    k = cand["kind"]
    rc, out = nat.exec("rel", values)
    m = re.search(r"SYM-FAIL.*", out)
    if m: return m.group(0)
    m = re.search(r"SYM-EXIT status.*", out)
    if m: return m.group(0)
    if rc == "timeout": return "does not terminate within 30 s"
    if isinstance(rc, int) and (rc < 0 or rc in (134, 139)): return "killed by signal %d: %s" % (-rc, out[-200:].replace("\n", " "))
    if k in ("memory", "exception", "uninit", "exit"):
        rc, out = nat.exec("asan", values, 60)
        m = re.search(r"(ERROR: AddressSanitizer.*|runtime error.*|Assertion '.*' failed.*|SYM-FAIL.*)", out)
        if m: return m.group(0)
        if isinstance(rc, int) and rc < 0: return "killed by signal %d" % -rc
    if k in ("memory", "uninit"):
        rc, out = nat.exec("vg", values, 120)
        if rc == 42: return "valgrind: " + re.sub(r"==\d+== ?", "", out).strip().replace("\n", " | ")[:300]
    return None

def write_values(path, cand, params):
    with open(path, "w") as f:
        for k, v in params.items(): f.write("@%s %s\n" % (k, v))
        for k, v in cand["values"]: f.write("%s %s\n" % (k, v))

def load_known():
    kn = []
    p = os.path.join(HERE, "known_findings.json")
    if os.path.exists(p): kn = json.load(open(p))["findings"]
    return kn

def merge(base, jobs):
    tot = {}
    for w in range(jobs):
        p = "%s.w%d.json" % (base, w)
        if not os.path.exists(p): continue
        d = json.load(open(p))
        for k, v in d.items():
            if isinstance(v, dict):
                t = tot.setdefault(k, {})
                for a, b in v.items(): t[a] = t.get(a, 0) + b
            elif isinstance(v, list): tot[k] = sorted(set(tot.get(k, [])) | set(v))
            elif k in ("maxInstr", "maxDepth"): tot[k] = max(tot.get(k, 0), v)
            elif k == "done": tot[k] = tot.get(k, True) and v
            else: tot[k] = tot.get(k, 0) + v
    return tot

def run_engine(run, bc, tmp, tag, params, tier, ignore, tlimit, jobs):
    base = os.path.join(tmp, tag + "_out"); scratch = os.path.join(tmp, tag + "_scr")
    shutil.rmtree(scratch, ignore_errors=True); os.makedirs(scratch)
    for f in os.listdir(tmp):
        if f.startswith(tag + "_out"): os.remove(os.path.join(tmp, f))
    cmd = [os.path.join(BUILD, "sx"), "--bc", bc, "--out", base, "--scratch", scratch, "--jobs", str(jobs), "--time", str(tlimit),
           "--qtimeout", str(run.get("qtimeout", 4000)), "--max-instr", str(run.get("maxinstr", 20000000)), "--grace", str(run.get("grace", 5))]
    if run.get("fp"): cmd.append("--fp")
    if run.get("order", "random") == "random": cmd.append("--random")
    for i in ignore: cmd += ["--ignore", i]
    for k, v in params.items(): cmd += ["-p", "%s=%d" % (k, v)]
    r = sh(cmd)
    if r.stdout.strip() and os.environ.get("CHECK_DEBUG"): print(r.stdout[-4000:])
    cands = []
    if os.path.exists(base + ".cands"):
        for l in open(base + ".cands"): cands.append(json.loads(l))
    m = json.load(open(base + ".master")) if os.path.exists(base + ".master") else {"wall": 0, "crashed": jobs, "killed": False, "stopped": True}
    shutil.rmtree(scratch, ignore_errors=True)
    return merge(base, jobs), cands, m

def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3] if len(sys.argv) > 3 else None
    seed = int(os.environ.get("VERIF_SEED", "1")); t0 = time.time()
    if not os.path.exists(os.path.join(BUILD, "sx")) or True: must(["bash", os.path.join(HERE, "engine", "build.sh"), BUILD])
    tmp = tempfile.mkdtemp(prefix="slsm_%s_" % prop)
    jobs = min(8, os.cpu_count() or 8)
    budget = {"quick": 400.0, "thorough": 3000.0}[tier]
    known = [k for k in load_known() if k["property"] == prop and k.get("status") == "known"]
    viols, findings, evid_runs, errors, unconf = [], [], [], [], []
    try:
        todo = [r for r in RUNS[prop] if tier in r.get("tiers", ("quick", "thorough")) and (only is None or r["name"] == only)]
        built = {}
        def key(r): return json.dumps([r["h"], r.get("defs"), r.get("shadow"), r.get("also")])
        for r in todo:
            k = key(r)
            if k not in built: built[k] = (build_bc(r, tmp, "b%d" % len(built)), Native(r, tmp, "n%d" % len(built)))
        for i, r in enumerate(todo):
            if viols: break
            bc, nat = built[key(r)]
            params = dict(r.get("params", {}));
            if tier == "thorough": params.update(r.get("thorough", {}))
            ignore = []; 
            for attempt in range(4):
                left = budget - (time.time() - t0)
                tl = max(20.0, min(left, r.get("ttime", 1200) if tier == "thorough" else r.get("time", 120)))
                tot, cands, mast = run_engine(r, bc, tmp, "r%d" % i, params, tier, ignore, tl, jobs)
                fresh = 0; seen = {}; spurious = 0
                for c in cands:
                    kk = c["kind"] + ":" + c["label"]
                    if kk in ignore or seen.get(kk, 0) >= 3: continue
                    if c["kind"] == "limit" and seen.get(kk, 0) >= 1: continue
                    seen[kk] = seen.get(kk, 0) + 1
                    vf = os.path.join(tmp, "values_%d_%d" % (i, len(os.listdir(tmp)))); write_values(vf, c, params)
                    txt = confirm(nat, c, vf)
                    if txt is None: unconf.append({"run": r["name"], "kind": c["kind"], "label": c["label"], "where": c["where"], "values": c["values"][:20]}); spurious += 1; continue
                    kf = next((q for q in known if q["run"] == r["name"] and re.fullmatch(q["label"], c["label"]) and re.search(q.get("where", ""), c["where"])), None)
                    if kf: findings.append(kf); ignore.append(kk); continue
                    fresh += 1; rd = os.path.join(BUILD, "replay"); os.makedirs(rd, exist_ok=True)
                    rp = os.path.join(rd, "%s_%s_%d.txt" % (prop, r["name"], len(viols))); shutil.copy(vf, rp)
                    with open(rp, "a") as f: f.write("# run %s harness %s: %s %s at %s -> %s\n" % (r["name"], r["h"], c["kind"], c["label"], c["where"], txt))
                    viols.append({"run": r["name"], "label": c["label"], "kind": c["kind"], "where": c["where"], "replay": rp, "observed": txt, "values": c["values"][:40]})
                if viols or not cands or not mast["stopped"]: break
                ignore = sorted(set(ignore) | {c["kind"] + ":" + c["label"] for c in cands})
            miss = [c for c in r.get("covers", []) if not tot.get("covers", {}).get(c)]
            if not viols:
                if mast.get("crashed"): errors.append("run %s: %s executor processes ended abnormally" % (r["name"], mast["crashed"]))
                if miss: errors.append("run %s: never reached %s" % (r["name"], ", ".join(miss)))
                if not tot.get("okPaths", 0) + tot.get("exits", 0): errors.append("run %s: no path completed (%s)" % (r["name"], list(tot.get("unsupported_msgs", {}))[:3]))
            evid_runs.append({"run": r["name"], "harness": r["h"], "bounds": r.get("bounds", ""), "params": params, "arithmetic": "IEEE-754 binary64" if r.get("fp") else "exact reals",
                "exhausted": bool(tot.get("done")) and not mast.get("crashed") and not tot.get("unsupported", 0) and not tot.get("limits", 0) and not tot.get("checksUndecided", 0), "paths": tot.get("paths", 0), "paths_completed": tot.get("okPaths", 0), "paths_expected_exit": tot.get("exits", 0),
                "paths_infeasible": tot.get("infeasible", 0), "paths_unsupported": tot.get("unsupported", 0), "paths_over_limit": tot.get("limits", 0), "pending_at_stop": tot.get("pending", 0),
                "instructions": tot.get("instrs", 0), "decisions": tot.get("decisions", 0), "queries": tot.get("queries", 0), "unsat": tot.get("unsat", 0), "sat": tot.get("sat", 0), "unknown": tot.get("unknown", 0),
                "query_cache_hits": tot.get("cacheHits", 0), "queries_by_branch_and_prune": tot.get("icp", 0), "solver_seconds": round(tot.get("solverTime", 0), 2), "checks": tot.get("checks", 0), "checks_by_solver": tot.get("checksSolver", 0),
                "checks_by_canonical_form": tot.get("checksSyntactic", 0), "checks_undecided": tot.get("checksUndecided", 0), "undecided_labels": tot.get("undecided", {}), "labels": tot.get("labels", {}),
                "covers": tot.get("covers", {}), "functions": tot.get("functions", []), "unsupported_messages": dict(list(tot.get("unsupported_msgs", {}).items())[:8]), "wall_s": round(mast["wall"], 2)})
            if os.environ.get("CHECK_DEBUG"):
                e = dict(evid_runs[-1]); e.pop("functions"); print(json.dumps(e, indent=1))
                for u in unconf: print("UNCONFIRMED", json.dumps(u))
    except BuildError as e:
        print("BUILD-ERROR"); print(str(e)[-3000:]); errors.append("build error: " + str(e)[-300:])
    finally:
        if not os.environ.get("CHECK_KEEP"): shutil.rmtree(tmp, ignore_errors=True)
    def tsum(k): return sum(r[k] for r in evid_runs)
    samples = []
    for r in evid_runs: samples.append("%s: %s; %d paths, %d assertions checked (%s)" % (r["run"], r["bounds"], r["paths"], r["checks"], ", ".join("%s x%d" % kv for kv in list(r["labels"].items())[:6])))
    for v in viols: samples.append(json.dumps(v))
    cov = {"states": tsum("paths"), "transitions": tsum("decisions"), "traces_validated_against_impl": len(viols) + len(findings), "samples": samples,
           "exhaustive": all(r["exhausted"] for r in evid_runs) and bool(evid_runs),
           "explanation": "states = symbolic paths explored (each stands for every input following it), transitions = symbolic branch decisions on them",
           "solver_queries": tsum("queries"), "solver_unsat": tsum("unsat"), "solver_unknown": tsum("unknown"), "solver_seconds": round(sum(r["solver_seconds"] for r in evid_runs), 2),
           "assertions_checked": tsum("checks"), "assertions_undecided": tsum("checks_undecided"), "functions_encoded": sorted({f for r in evid_runs for f in r["functions"]}),
           "unconfirmed_candidates": unconf[:20], "runs": [{k: v for k, v in r.items() if k != "functions"} for r in evid_runs], "errors": errors}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": LEVEL_NOTE.get(prop, LEVEL_NOTE["*"]), "wall_s": round(time.time() - t0, 2), "violations": len(viols)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for kf in {json.dumps(k, sort_keys=True) for k in findings}: print("KNOWN-FINDING: property=%s %s" % (prop, json.loads(kf)["what"]))
    for v in viols[:5]: print("VIOLATION property=%s replay=%s" % (prop, v["replay"])); print("  %s [%s] at %s -> %s" % (v["label"], v["run"], v["where"], v["observed"]))
    if viols: return 1
    if errors: print("ERROR: " + "; ".join(errors)); return 2
    print("OK property=%s tier=%s paths=%d checks=%d queries=%d undecided=%d exhaustive=%s wall=%.1fs" % (prop, tier, cov["states"], cov["assertions_checked"], cov["solver_queries"], cov["assertions_undecided"], cov["exhaustive"], time.time() - t0))
    return 0
sys.exit(main())
