#!/usr/bin/env python3
"""Decide one property by symbolic execution of /repo's current code.

  run_check.py PROPERTY [--tier quick|thorough] [--harness NAME] [--keep]
  run_check.py --setup                 build the engine only
  run_check.py --replay FILE           re-run a recorded counterexample natively
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
E = os.path.join(V, "engine")
REPO = os.environ.get("REPO", "/repo")
ZI = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
NJ = os.cpu_count() or 8
CLANG = "/usr/bin/clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++"

def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, **kw)

class BuildError(Exception): pass

def must(cmd, what, timeout=600):
    r = sh(cmd, timeout)
    if r.returncode != 0:
        err = [l for l in r.stdout.splitlines() if "error:" in l][:12]
        raise BuildError(what + ":\n" + "\n".join(err) + "\n" + r.stdout[-2500:])
    return r.stdout

def engine_dir():
    h = hashlib.sha256()
    for f in ("inst.cpp", "rt.cpp", "rt.h", "symx.h"): h.update(open(os.path.join(E, f), "rb").read())
    return os.path.join(V, "build", "engine-" + h.hexdigest()[:16])

def _locked_make(d, name, cmds):
    """build one engine artefact into d/name unless it is already there"""
    out = os.path.join(d, name)
    if os.path.exists(out): return out
    os.makedirs(d, exist_ok=True)
    tmp = out + ".%d" % os.getpid()
    must(cmds.replace("@OUT@", tmp), "engine " + name)
    os.replace(tmp, out)
    return out

def build_inst():
    return _locked_make(engine_dir(), "sxinst", "g++ -O1 -std=c++17 $(llvm-config-18 --cxxflags | sed 's/-std=c++17//;s/-fno-exceptions//') %s/inst.cpp -o @OUT@ $(llvm-config-18 --ldflags --libs)" % E)

def build_rt():
    return _locked_make(engine_dir(), "rt.o", "g++ -O2 -std=c++17 -I%s/include -c %s/rt.cpp -o @OUT@" % (ZI, E))

def incs(extra):
    return ("-iquote %s/include/albatross -I%s/include -isystem /usr/include/eigen3 -I%s -I%s/stubs -I%s/harness -DCEREAL_THREAD_SAFE=1 -DSYMX %s" % (REPO, REPO, E, V, V, extra))

def meta(src):
    """// key: value header lines of a harness file"""
    m = {}
    for line in open(src):
        g = re.match(r"//\s*@(\w+):\s*(.*)", line)
        if g: m.setdefault(g.group(1), []).append(g.group(2).strip())
        elif not line.startswith("//") and line.strip(): break
    return m

def eigen_overlay(work):
    """Eigen's triangular solver skips an update whose multiplier is exactly zero; the update is
    then a no-op, so the symbolic build always performs it instead of splitting on equality."""
    f = "/usr/include/eigen3/Eigen/src/Core/products/TriangularSolverVector.h"
    t = open(f).read(); n = t.replace("numext::not_equal_strict(rhs[i],RhsScalar(0))", "true")
    if n == t: return ""
    p = os.path.join(work, "TriangularSolverVector.h"); open(p, "w").write(n); y = os.path.join(work, "overlay.yaml")
    json.dump({"version": 0, "roots": [{"name": os.path.dirname(f), "type": "directory", "contents": [{"name": os.path.basename(f), "type": "file", "external-contents": p}]}]}, open(y, "w"))
    return "-ivfsoverlay " + y

def build_sym(src, work, tier, pool):
    m = meta(src); fl = " ".join(m.get("flags", [])) + (" -DSYMX_THOROUGH" if tier == "thorough" else ""); libs = " ".join(m.get("libs", []))
    must("%s %s -std=c++17 -Wno-c++11-narrowing -O1 -fno-vectorize -fno-slp-vectorize -ffp-contract=off -DEIGEN_DONT_VECTORIZE -D_GLIBCXX_ASSERTIONS -w %s -c -emit-llvm %s -o %s/h.bc" % (CLANG, eigen_overlay(work), incs(fl), src, work), "compile " + os.path.basename(src))
    inst = pool["inst"].result(); rt = pool["rt"].result()
    must("%s %s/h.bc %s/i.bc%s" % (inst, work, work, " race" if "race" in m else ""), "instrument")
    must("%s -O1 -w -fno-vectorize -fno-slp-vectorize -c %s/i.bc -o %s/i.o" % (CLANG, work, work), "codegen")
    must("g++ -o %s/sym %s %s/i.o -L%s/lib -Wl,-rpath,%s/lib -l:libz3.so.5.3 -lgmpxx -lgmp %s -lpthread" % (work, rt, work, ZI, ZI, libs), "link")
    return os.path.join(work, "sym")

def build_native(src, work, tier):
    m = meta(src); fl = " ".join(m.get("flags", [])) + (" -DSYMX_THOROUGH" if tier == "thorough" else ""); libs = " ".join(m.get("libs", []))
    must("g++ -std=c++17 -Wno-narrowing -O1 -D_GLIBCXX_ASSERTIONS -w %s %s %s/replay.cpp -o %s/native %s -lpthread" % (incs(fl), src, E, work, libs), "native build of " + os.path.basename(src), 800)
    return os.path.join(work, "native")

def build_tsan(src, work, tier):
    """the same harness with tasks on real threads, for ThreadSanitizer to confirm a data race"""
    m = meta(src); fl = " ".join(m.get("flags", [])) + (" -DSYMX_THOROUGH" if tier == "thorough" else ""); libs = " ".join(m.get("libs", []))
    must("%s -std=c++17 -Wno-c++11-narrowing -O1 -g -fsanitize=thread -DSYMX_TSAN -w %s %s %s/replay.cpp -o %s/tsan %s -lpthread" % (CLANG, incs(fl), src, E, work, libs), "sanitiser build of " + os.path.basename(src), 800)
    return os.path.join(work, "tsan")

def replay_race(src, work, tier, cand):
    b = os.path.join(work, "tsan")
    if not os.path.exists(b): b = build_tsan(src, work, tier)
    for k in range(6):
        r = sh("setarch -R %s %s" % (b, cand) if k % 2 == 0 else [b, cand], 120)
        if "WARNING: ThreadSanitizer: data race" in r.stdout: return 1, "REPLAY-FAIL no data race: ThreadSanitizer reports a data race\n" + r.stdout[-3000:]
    return 0, r.stdout

def parse_summary(path):
    r = {"labels": [], "harness": [], "inc": [], "fns": []}
    if not os.path.exists(path): return None
    for l in open(path, errors="replace"):
        l = l.rstrip("\n"); k, _, v = l.partition(" ")
        if k == "harness":
            t = v.split(); r["harness"].append(dict(name=t[0], **{t[i]: int(t[i + 1]) for i in range(1, len(t) - 1, 2)}))
        elif k == "label":
            t = v.split("|"); n = len(t); r["labels"].append(dict(harness=t[0], label="|".join(t[1:n - 4]), reached=int(t[n - 4]), proved=int(t[n - 3]), violated=int(t[n - 2]), inconclusive=int(t[n - 1])))
        elif k == "inc": r["inc"].append(v)
        elif k == "fn": r["fns"].append(v)
        else: r[k] = float(v)
    return r

def demangle(names):
    p = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
    return p.stdout.split("\n")

def replay(native, cand, timeout=90):
    try: r = sh([native, cand], timeout)
    except subprocess.TimeoutExpired: return 1, "REPLAY-FAIL no-abort: does not terminate"
    return r.returncode, r.stdout

def cand_fields(c):
    d = {"vars": {}}
    for l in open(c):
        k, _, v = l.rstrip("\n").partition(" ")
        if k == "var": n, _, x = v.partition(" "); d["vars"][n] = x
        else: d[k] = v
    return d

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("prop", nargs="?"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--harness", action="append"); ap.add_argument("--keep", action="store_true"); ap.add_argument("--setup", action="store_true"); ap.add_argument("--replay"); ap.add_argument("--verbose", action="store_true"); ap.add_argument("--file", action="append"); ap.add_argument("--secs", type=float)
    a = ap.parse_args(); t0 = time.time(); tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    ex = cf.ThreadPoolExecutor(NJ)
    if a.setup:
        f = [ex.submit(build_inst), ex.submit(build_rt)]; [x.result() for x in f]; print("engine ready", engine_dir()); return 0
    work = tempfile.mkdtemp(prefix="symx-")
    try:
        if a.replay:
            d = cand_fields(a.replay); src = os.path.join(V, d["source"]); n = build_native(src, work, d.get("tier", "quick")); rc, out = replay(n, a.replay); rc, out = replay_race(src, work, d.get("tier", "quick"), a.replay) if rc == 0 and d["label"] == "no data race" else (rc, out); print(out); return 1 if rc == 1 else 0
        return run(a, tier, work, ex, t0)
    except BuildError as e:
        print("BUILD-ERROR", e); return 2
    finally:
        if a.keep: print("kept", work)
        else: shutil.rmtree(work, ignore_errors=True)

def run(a, tier, work, ex, t0):
    prop = a.prop; srcs = sorted(glob.glob(os.path.join(V, "harness", prop + "*.cpp")))
    if a.file: srcs = [s for s in srcs if os.path.basename(s) in a.file]
    if not srcs: print("no harness for", prop); return 2
    seed = int(os.environ.get("VERIF_SEED", "1")); limit = 330 if tier == "quick" else 3000
    if a.secs: limit = a.secs
    pool = {"inst": ex.submit(build_inst), "rt": ex.submit(build_rt)}
    works = {}; sym = {}; nat = {}
    for s in srcs:
        w = os.path.join(work, os.path.basename(s)[:-4]); os.makedirs(os.path.join(w, "out")); works[s] = w
    ex2 = cf.ThreadPoolExecutor(NJ)
    for s in srcs: sym[s] = ex2.submit(build_sym, s, works[s], tier, pool)
    for s in srcs: nat[s] = ex2.submit(build_native, s, works[s], tier)
    sums = {}; build_s = 0
    for s in srcs:
        b = sym[s].result(); build_s = time.time() - t0
        env = dict(os.environ); 
        if a.verbose: env["SYMX_VERBOSE"] = "1"
        if tier == "thorough": env.setdefault("SYMX_HELPER", "60"); env.setdefault("SYMX_BRANCH", "5"); env.setdefault("SYMX_RLIMIT", "20000000")
        dl = max(20, limit - (time.time() - t0)); 
        m = meta(s); 
        if "seconds" in m and tier == "quick": dl = min(dl, float(m["seconds"][0]))
        cmd = [b, os.path.join(works[s], "out"), str(dl), str(NJ)] + (a.harness or [])
        try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=dl + 60, env=env, errors="replace")
        except subprocess.TimeoutExpired: print("engine overran its deadline on", os.path.basename(s)); return 2
        if a.verbose: print(r.stdout[-6000:])
        sums[s] = parse_summary(os.path.join(works[s], "out", "summary.txt"))
        if sums[s] is None: print("engine failed on", os.path.basename(s), r.stdout[-2000:]); return 2
    # counterexamples and path witnesses against the native build
    known = []; kf = os.path.join(V, "known_findings.json")
    if os.path.exists(kf): known = [k for k in json.load(open(kf)).get("findings", []) if k["property"] == prop]
    viol = []; unconf = []; wit_ok = wit_bad = 0; wit_badl = []; known_hit = {}
    rdir = os.path.join(V, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
    for old in glob.glob(os.path.join(rdir, prop + "-*")): os.remove(old)
    confirmed = set(); tried = {}
    for s in srcs:
        n = nat[s].result()
        out = os.path.join(works[s], "out")
        for c in sorted(glob.glob(out + "/cand.*")):
            d = cand_fields(c); key = (d["harness"], d["label"])
            if key in confirmed or tried.get(key, 0) >= 12: continue
            tried[key] = tried.get(key, 0) + 1
            rc, o = replay(n, c)
            if rc == 0 and d["label"] == "no data race": rc, o = replay_race(s, works[s], tier, c)
            fails = re.findall(r"REPLAY-FAIL (.*?): (.*)", o)
            if rc == 1:
                confirmed.add(key)
                k = [x for x in known if x.get("harness") == d["harness"] and x.get("label") in [f[0] for f in fails] and all(f[0] == x.get("label") for f in fails)]
                if k: known_hit[k[0]["id"]] = k[0]; continue
                dst = os.path.join(rdir, "%s-%d.txt" % (prop, len(viol))); 
                with open(dst, "w") as f: f.write(open(c).read() + "source harness/%s\ntier %s\nobserved %s\n" % (os.path.basename(s), tier, "; ".join("%s: %s" % x for x in fails[:4])))
                viol.append((dst, d, fails))
            else: unconf.append((d["harness"], d["label"], d.get("msg", ""), "assumption" if rc == 3 else "holds natively"))
        for c in sorted(glob.glob(out + "/wit.*")):
            rc, o = replay(n, c)
            if rc == 0: wit_ok += 1
            else: wit_bad += 1; wit_badl.append((cand_fields(c)["harness"], o[-300:]))
    unconf = [u for u in unconf if (u[0], u[1]) not in confirmed]
    tot = lambda k: int(sum(x.get(k, 0) for x in sums.values()))
    hs = [h for x in sums.values() for h in x["harness"] if not a.harness or h["name"] in a.harness]
    labels = [l for x in sums.values() for l in x["labels"]]
    vac = [h["name"] for h in hs if h["paths"] == 0 and h["fails"] == 0 or not any(l["harness"] == h["name"] and l["reached"] for l in labels)]
    incs_ = [i for x in sums.values() for i in x["inc"]]
    npath = sum(h["paths"] for h in hs); ninc = sum(h["inconclusive"] for h in hs); lab_inc = sum(l["inconclusive"] for l in labels)
    fns = sorted(set(f for x in sums.values() for f in x["fns"])); dm = [f for f in demangle(fns) if "albatross::" in f.split("(")[0] or "Eigen::Serializable" in f or "Eigen::BlockDiagonal" in f]
    bounds = [b for s in srcs for b in meta(s).get("bounds", [])]; assume = [b for s in srcs for b in meta(s).get("assume", [])]
    samples = []
    for s in srcs:
        for c in sorted(glob.glob(works[s] + "/out/wit.*"))[:2]: d = cand_fields(c); samples.append({"harness": d["harness"], "path_witness": dict(list(d["vars"].items())[:12])})
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "other", "wall_s": round(time.time() - t0, 2), "violations": len(viol),
      "assumptions": assume + ["doubles declared with symx::real are mathematical reals (no rounding, no overflow); concrete sub-computations keep machine rounding unless the harness asks for exact mode; comparisons against |c|>1e290 / 0<|c|<1e-280 are read as infinite / zero", "transcendental functions are uninterpreted with sign, monotonicity, congruence and exp/log cancellation axioms", "single threaded: tasks given to the thread pool run atomically, in every order the solver can choose"],
      "coverage": {"explanation": "Bounded symbolic execution of the real code: the harness and the albatross headers of this tree are compiled to LLVM IR, instrumented so that every instruction also builds a symbolic term, and run with symbolic inputs; every feasible path is forked and followed (feasibility by z3), and each assertion is decided for all inputs of its path by z3 or by the normal form of real rational functions. Counterexamples are replayed on a native g++ build.",
        "bounds": bounds, "harnesses": hs, "paths_completed": npath, "paths_inconclusive": ninc, "assertions_decided": tot("asserts"), "assertions_closed_by_normal_form": tot("normalised"), "assertions_inconclusive": lab_inc,
        "solver_queries": tot("queries"), "sat": tot("sat"), "unsat": tot("unsat"), "unknown": tot("unknown"), "solver_seconds": round(sum(x.get("solver_s", 0) for x in sums.values()), 2), "slow_queries": tot("slow"), "build_seconds": round(build_s, 1),
        "path_witnesses_replayed_natively": wit_ok, "path_witness_mismatches": wit_bad, "counterexamples_confirmed": len(viol), "counterexamples_unconfirmed": [list(u) for u in unconf[:10]], "known_findings_seen": sorted(known_hit),
        "labels": labels, "inconclusive_reasons": sorted(set(incs_))[:20], "vacuous_harnesses": vac, "functions_encoded_total": len(fns), "functions_encoded": [f[:200] for f in dm][:400], "samples": samples[:12]}}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True); json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    print("%s tier=%s harnesses=%d paths=%d asserts=%d queries=%d solver=%.1fs inconclusive_paths=%d inconclusive_asserts=%d witnesses=%d/%d wall=%.1fs (build %.1fs)" % (prop, tier, len(hs), npath, tot("asserts"), tot("queries"), sum(x.get("solver_s", 0) for x in sums.values()), ninc, lab_inc, wit_ok, wit_ok + wit_bad, time.time() - t0, build_s))
    for i in sorted(set(incs_))[:8]: print("  inconclusive:", i)
    for v in vac: print("  VACUOUS harness:", v)
    for u in unconf[:6]: print("  unconfirmed candidate:", u)
    for w in wit_badl[:3]: print("  witness mismatch:", w)
    for k in known_hit.values(): print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for dst, d, fails in viol: print("VIOLATION property=%s replay=%s" % (prop, dst)); print("   %s/%s %s %s" % (d["harness"], d["label"], "; ".join("%s: %s" % x for x in fails[:3]), dict(list(d["vars"].items())[:10])))
    if viol: return 1
    return 0
if __name__ == "__main__":
    sys.exit(main())
