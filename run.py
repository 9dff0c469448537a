#!/usr/bin/env python3
"""Runs the solver-based check of one property:  run.py P01 [--tier quick|thorough] [--fn name]

Compiles the property's harnesses (harness/<id>*.cpp) together with /repo's current headers and sources to
LLVM bitcode, executes every harness function symbolically (engine/), replays every counterexample natively
against the real code, replays one witness per explored path, writes evidence/<id>.json.
Exit 0: held within the bounds; exit 1 + VIOLATION line: a replayed counterexample."""
import sys, os, re, json, subprocess, time, glob, shutil, hashlib, threading
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
INC = ["-I" + V + "/lib", "-I" + REPO + "/libdiskpp/include", "-I" + REPO + "/libdiskpp/contrib/jburkardt/include",
       "-I" + REPO + "/libdiskpp/contrib/triangle", "-I/usr/include/eigen3"]
CXX = "clang++-18"
CF = ["-std=c++20", "-O1", "-DNDEBUG", "-DEIGEN_DONT_VECTORIZE", "-fno-vectorize", "-fno-slp-vectorize",
      "-ffp-contract=off", "-fno-math-errno", "-fno-builtin-printf", "-w", "-Wno-everything", "-Wno-error=c++11-narrowing", "-Wno-c++11-narrowing", "-Wno-c++11-narrowing-const-reference", "-fno-stack-protector", "-U_FORTIFY_SOURCE", "-DEIGEN_NO_CPUID"]
CDEF = ["-DTRILIBRARY", "-DREDUCED", "-DCDT_ONLY"]
JB = ["jb_common", "simplex_gm_rule", "tetrahedron_arbq_rule", "triangle_dunavant_rule"]

def sh(cmd, timeout=None, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd)
        return p.returncode, p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode("utf8", "replace")

def build_engine():
    rc, out = sh(["make", "-s", "-j4", "-C", V + "/engine"], timeout=600)
    if rc: print(out[-3000:]); print("engine build failed"); return False
    return True

class Unit:
    def __init__(self, src, outdir):
        self.src = src; self.base = os.path.basename(src)[:-4]; self.dir = outdir
        self.text = open(src).read()
        self.link = []; self.bounds = []; self.assume = []; self.opts = {}; self.flags = []
        for l in self.text.splitlines():
            m = re.match(r"\s*//@(\w+)\s+(.*)", l)
            if not m: continue
            k, v = m.groups(); v = v.strip()
            if k == "link": self.link += v.split()
            elif k == "bound": self.bounds.append(v)
            elif k == "assume": self.assume.append(v)
            elif k == "flags": self.flags += v.split()
            elif k == "opt":
                f, *kv = v.split(); self.opts.setdefault(f, {}).update(x.split("=") for x in kv)
        self.err = None; self.fns = []; self.exe = {}; self.lock = threading.Lock()
    def srcs(self):
        r = []
        for l in self.link:
            if l == "jb": r += [(REPO + "/libdiskpp/contrib/jburkardt/src/" + x + ".cpp", []) for x in JB]
            elif l == "util": r.append((REPO + "/libdiskpp/src/common/util.cpp", []))
            elif l == "triangle": r.append((REPO + "/libdiskpp/contrib/triangle/triangle_mesher.c", []))
            elif l == "mapped": r.append((REPO + "/libdiskpp/src/common/mapped_file.cpp", []))
            else: r.append((l.replace("$REPO", REPO), []))
        return r
    def compile(self):
        t0 = time.time()
        bc = self.dir + "/" + self.base + ".bc"
        jobs = [(self.src, self.dir + "/" + self.base + ".0.bc")]
        for i, (s, _) in enumerate(self.srcs()): jobs.append((s, "%s/%s.%d.bc" % (self.dir, self.base, i + 1)))
        def one(j):
            s, o = j
            cmd = ["clang-18"] + [x for x in CF if x[:5] != "-std="] + CDEF if s.endswith(".c") else [CXX] + CF + self.flags + INC
            return s, sh(cmd + ["-emit-llvm", "-c", s, "-o", o], timeout=700)
        with ThreadPoolExecutor(4) as ex:
            for s, (rc, out) in ex.map(one, jobs):
                if rc: self.err = "does not compile: " + s + "\n" + out[-1500:]; return
        if len(jobs) > 1:
            rc, out = sh(["/usr/lib/llvm-18/bin/llvm-link"] + [o for _, o in jobs] + ["-o", bc])
            if rc: self.err = out[-1500:]; return
        else: shutil.move(jobs[0][1], bc)
        self.bc = bc
        self.ctime = time.time() - t0
    def list_fns(self):
        rc, out = sh([V + "/build/vpsym", self.bc, "--list"])
        self.fns = out.split()
    def native(self, mode):
        with self.lock:
            if mode in self.exe: return self.exe[mode]
            exe = self.dir + "/" + self.base + "." + mode
            rt = V + "/lib/vp_native.cpp"
            wrap = ["-DVP_WRAP", "-Wl,--wrap=strtod", "-Wl,--wrap=__isoc23_strtod", "-Wl,--wrap=_ZNSi10_M_extractIdEERSiRT_"] if "VP_WRAP" in self.text else []
            if mode == "plain":
                cmd = [CXX, "-O0", "-w", "-rdynamic", "-I" + V + "/lib"] + wrap + [self.bc, "-x", "c++", rt, "-o", exe, "-ldl"]
            else:
                cobj = []
                for i, (s, _) in enumerate(self.srcs()):
                    if not s.endswith(".c"): cobj.append(s); continue
                    o = "%s/%s.%d.o" % (self.dir, self.base, i); sh(["clang-18"] + [x for x in CF if x[:5] != "-std="] + CDEF + ["-c", s, "-o", o]); cobj.append(o)
                cmd = [CXX] + CF + self.flags + INC + ["-fsanitize=address,bounds", "-fno-sanitize-recover=bounds", "-g1", "-rdynamic"] + wrap + [self.src, rt] + cobj + ["-o", exe, "-ldl"]
            rc, out = sh(cmd, timeout=600)
            if rc: exe = None; self.nerr = out[-800:]
            self.exe[mode] = exe
            return exe

def run_native(exe, fn, vals, vfile, tier, timeout=40):
    with open(vfile, "w") as f:
        for k, v in vals.items(): f.write("%s %s\n" % (k, v))
    env = dict(os.environ, VP_VALUES=vfile, VP_TIER=str(tier), MALLOC_PERTURB_="165")
    return sh(["/bin/bash", "-c", "ulimit -s unlimited 2>/dev/null; exec \"$0\" \"$1\"", exe, fn], timeout=timeout, env=env, cwd="/tmp")

def reproduces(v, rc, out):
    k = v["kind"]
    if k == "steps": return rc == 124
    if k == "mem": return "AddressSanitizer" in out or "runtime error" in out or rc < 0 or rc in (139, 134)
    if k == "throw": return "VP-FAIL uncaught exception" in out or "terminate called" in out
    return any(l.startswith("VP-FAIL " + v["label"]) for l in out.splitlines())

def main():
    args = sys.argv[1:]; pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick"); only = None
    if "--tier" in args: tier = args[args.index("--tier") + 1]
    if "--fn" in args: only = args[args.index("--fn") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    T = 1 if tier == "thorough" else 0
    t0 = time.time()
    total = float(os.environ.get("VP_BUDGET", 780 if not T else 6 * 3600))
    out = os.environ.get("VP_OUT", V + "/build/run/" + pid)
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    ev_path = V + "/evidence/" + pid + ".json"; os.makedirs(V + "/evidence", exist_ok=True)
    known = [k for k in json.load(open(V + "/known_findings.json"))["findings"] if k["property"] == pid] if os.path.exists(V + "/known_findings.json") else []
    units = [Unit(s, out) for s in sorted(glob.glob(V + "/harness/" + pid + "*.cpp"))]
    eng = []
    te = threading.Thread(target=lambda: eng.append(build_engine())); te.start()
    with ThreadPoolExecutor(8) as ex: list(ex.map(lambda u: u.compile(), units))
    te.join()
    if not eng or not eng[0]: sys.exit(2)
    for u in units:
        if not u.err: u.list_fns()
    errs = [u for u in units if u.err]
    for u in errs: print("NOTE: " + u.base + ": " + u.err)
    if not units or len(errs) == len(units): print("no harness of " + pid + " could be built: no answer"); sys.exit(2)
    tasks = []
    for u in units:
        for f in u.fns:
            if f.startswith("vpt_") and not T: continue
            if only and only not in f: continue
            tasks.append((u, f))
    res = {}
    def opt(u, f, k, d):
        o = dict(u.opts.get("*", {})); o.update(u.opts.get(f[4:], {}))
        return o.get(("t" if T else "q") + k, o.get(k, d))
    def run(tk):
        u, f = tk
        ol = out + "/" + f + ".jl"
        left = total - (time.time() - t0)
        lim = min(float(opt(u, f, "time", 1500 if T else 150)), left)
        if lim < 5: return
        cmd = [V + "/build/vpsym", u.bc, "--fn", f, "--out", ol, "--time", str(lim), "--tier", str(T),
               "--maxpaths", opt(u, f, "paths", "20000" if T else "3000"), "--qtimeout", opt(u, f, "qt", "10000" if T else "3000"), "--maxsteps", opt(u, f, "steps", "4e9" if T else "1e9")]
        rc, o = sh(["setsid", "-w", "timeout", "-k", "5", str(lim + 30)] + cmd)
        recs = []
        if os.path.exists(ol):
            for l in open(ol):
                try: recs.append(json.loads(l))
                except ValueError: pass
        fns = set()
        if os.path.exists(ol + ".funcs"): fns = set(open(ol + ".funcs").read().split("\n")) - {""}
        res[f] = (u, recs, fns, o if rc else "")
    for u in units:
        if u.fns: threading.Thread(target=u.native, args=("plain",), daemon=True).start()
    tasks.sort(key=lambda tk: -float(opt(tk[0], tk[1], "w", "1")))
    t1 = time.time()
    with ThreadPoolExecutor(int(os.environ.get("VP_JOBS", "6"))) as ex: list(ex.map(run, tasks))
    t2 = time.time()
    # ---- counterexamples, replayed
    confirmed, unconfirmed, findings = [], [], []
    viols = []
    for f, (u, recs, _, _) in res.items():
        seen = {}
        for r in recs:
            if r["t"] != "viol": continue
            key = (r["kind"], r["label"] if r["kind"] in ("check", "close") else r["label"][:60])
            seen.setdefault(key, []).append(r)
        for key, rs in seen.items(): viols.append((u, f, key, rs))
    def rep(item):
        u, f, key, rs = item
        mode = "asan" if key[0] == "mem" else "plain"
        exe = u.native(mode)
        n = 0
        if exe:
            ms = [(r, m) for r in rs for m in r["models"]]
            for r, m in ms[:24]:
                vf = "%s/viol-%s-%s.txt" % (out, f, hashlib.md5(repr((key, n)).encode()).hexdigest()[:8]); n += 1
                rc, o = run_native(exe, f, m, vf, T, timeout=60 if key[0] == "steps" else 40)
                if reproduces(r, rc, o): return (item, r, m, vf, o)
                os.remove(vf)
        return (item, None, None, None, "" if exe else getattr(u, "nerr", ""))
    with ThreadPoolExecutor(8) as ex: reps = list(ex.map(rep, viols[:60]))
    for (u, f, key, rs), r, m, vf, o in reps:
        if not r: unconfirmed.append({"harness": f, "kind": key[0], "label": key[1], "detail": rs[0].get("detail", "")[:300], "models": rs[0]["models"][:1]}); continue
        kn = [k for k in known if k["harness"] == f and k.get("kind", key[0]) == key[0] and key[1].startswith(k["label"])]
        if kn:
            if kn[0] not in findings: findings.append(kn[0])
            continue
        confirmed.append((u, f, key, r, m, vf, o))
    # ---- witnesses of the explored paths, replayed
    wit = []
    for f, (u, recs, _, _) in res.items():
        k = 0
        for r in recs:
            if r["t"] == "witness" and k < (6 if T else 2): wit.append((u, f, r["vals"], k)); k += 1
    def wrep(w):
        u, f, vals, k = w
        exe = u.native("plain")
        if not exe: return (w, None, "")
        rc, o = run_native(exe, f, vals, "%s/wit-%s-%d.txt" % (out, f, k), T, timeout=60)
        return (w, rc, o)
    if time.time() - t0 < total:
        with ThreadPoolExecutor(8) as ex: wres = list(ex.map(wrep, wit))
    else: wres = []
    failing = {f for _, f, *_ in viols}
    if os.environ.get("VP_PROF"): print("compile %.1f symbolic %.1f replay %.1f" % (t1 - t0, t2 - t1, time.time() - t2))
    validated = sum(1 for w, rc, o in wres if rc == 0)
    disagree = [{"harness": w[1], "values": w[2], "output": o[-300:]} for w, rc, o in wres if rc not in (0, 5, None) and w[1] not in failing]
    # ---- evidence
    S = {}
    per = {}
    for f, (u, recs, fns, o) in res.items():
        s = [r for r in recs if r["t"] == "summary"]
        s = s[-1] if s else {}
        for k, v in s.items():
            if k != "t": S[k] = S.get(k, 0) + v
        st = "complete" if s and not (s["unsupported"] or s["errors"] or s["deadline"] or s["unknown_checks"]) else "incomplete"
        if not s: st = "engine failure: " + o[-300:]
        per[f] = {"status": st, **{k: s.get(k) for k in ("paths", "checks", "failed", "unknown_checks", "queries", "sat", "unsat", "unknown", "unsupported", "infeasible", "deadline", "errors", "steps", "solver_s", "wall_s")}}
        inc = [r.get("msg") or r.get("label") for r in recs if r["t"] == "unknown" or (r["t"] == "path" and r["status"] not in ("done",))]
        if inc: per[f]["outside"] = sorted(set(str(x)[:240] for x in inc))[:4]
    allf = sorted(set().union(*[r[2] for r in res.values()])) if res else []
    mine = [x for x in allf if "disk::" in x and not x.startswith(("std::", "Eigen::", "void std::", "void Eigen::"))]
    missing = [f for u, f in tasks if f not in res]
    samples = [{"harness": w[1], "input": w[2], "replay": "ok" if rc == 0 else "rc %s" % rc} for w, rc, o in wres[:12]]
    cov = {
        "states": S.get("paths", 0), "transitions": S.get("steps", 0), "traces_validated_against_impl": validated, "samples": samples or [{"note": "no path completed"}],
        "explanation": "Bounded symbolic execution of the LLVM IR of the real code: states = feasible symbolic paths explored, transitions = IR instructions interpreted on them; "
                       "each assertion is discharged by z3 over all values of the symbolic inputs on the path.",
        "assertions_checked": S.get("checks", 0), "queries": S.get("queries", 0), "queries_unsat": S.get("unsat", 0), "queries_sat": S.get("sat", 0), "queries_unknown": S.get("unknown", 0),
        "queries_linear_real": S.get("lra", 0), "queries_nonlinear_real": S.get("nra", 0), "queries_bitvector": S.get("bv", 0), "decided_by_intervals": S.get("trivial", 0),
        "solver_time_s": round(S.get("solver_s", 0), 3), "assertions_unknown": S.get("unknown_checks", 0), "paths_infeasible": S.get("infeasible", 0),
        "harnesses": per, "harnesses_not_run": missing, "functions_encoded_count": len(allf), "functions_encoded": mine[:400],
        "bounds": [b for u in units for b in u.bounds], "unconfirmed_counterexamples": unconfirmed, "native_disagreements": disagree,
        "compile_errors": [u.base + ": " + u.err[-500:] for u in errs], "known_findings_seen": [k["what"] for k in findings],
    }
    ass = ["Floating point: values that depend on a symbolic input are exact reals over the program's real IEEE constants; results are compared within the stated tolerance, so rounding is outside the claim. Values that do not depend on an input are computed in IEEE double.",
           "Divisors that depend on symbolic inputs are assumed nonzero; bounds/uninitialised accesses are checked on concrete addresses of every explored path.",
           "Trusted: clang 18 -O1 (-DNDEBUG, no vectorisation), the interpreter in engine/, z3 4.8.12, GMP; libstdc++ containers' out-of-line code runs natively."] + [a for u in units for a in u.assume]
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": ass, "wall_s": round(time.time() - t0, 2), "violations": len(confirmed)}, open(ev_path, "w"), indent=1)
    # ---- report
    for f in sorted(per):
        p = per[f]
        print("%-44s %-10s paths=%s checks=%s queries=%s solver=%.1fs wall=%.1fs%s" % (f, p["status"][:40], p.get("paths"), p.get("checks"), p.get("queries"), p.get("solver_s") or 0, p.get("wall_s") or 0, "  outside: " + p["outside"][0][:150] if "outside" in p else ""))
    for d in disagree: print("NOTE: native run of a witness disagrees: " + d["harness"] + " " + d["output"][:300])
    for x in unconfirmed: print("NOTE: counterexample not reproduced natively: %s %s %s" % (x["harness"], x["label"], json.dumps(x["models"])[:300]))
    for k in findings: print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    print("%s %s: %d paths, %d assertions, %d queries, %.1fs solver, %d witnesses replayed, %.1fs wall" % (pid, tier, S.get("paths", 0), S.get("checks", 0), S.get("queries", 0), S.get("solver_s", 0), validated, time.time() - t0))
    if confirmed:
        rd = V + "/evidence/replay"; os.makedirs(rd, exist_ok=True)
        for n, (u, f, key, r, m, vf, o) in enumerate(confirmed):
            p = "%s/%s-%d.json" % (rd, pid, n)
            json.dump({"property": pid, "harness_file": u.src, "harness": f, "kind": key[0], "label": r["label"], "found_by": r["how"], "input": m, "symbolic_difference": r.get("detail", ""), "native_output": o[-2000:],
                       "rerun": "python3 %s/run.py %s --replay %s" % (V, pid, p)}, open(p, "w"), indent=1)
            if n < 10:
                print("  %s: %s [%s] input %s" % (f, r["label"], key[0], json.dumps(m)[:400]))
                for l in o.splitlines():
                    if l.startswith("VP-FAIL") or "ERROR: AddressSanitizer" in l: print("    native: " + l[:200]); break
            print("VIOLATION property=%s replay=%s" % (pid, p))
        sys.exit(1)
    if S.get("checks", 0) == 0: print("nothing was decided: no answer"); sys.exit(2)
    sys.exit(0)

def replay(pid, path):
    r = json.load(open(path)); out = V + "/build/run/replay"; shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    if not build_engine(): sys.exit(2)
    u = Unit(r["harness_file"], out); u.compile()
    exe = u.native("asan" if r["kind"] == "mem" else "plain")
    rc, o = run_native(exe, r["harness"], r["input"], out + "/v.txt", 0)
    print(o); sys.exit(1 if reproduces(r, rc, o) else 0)

if __name__ == "__main__":
    if "--replay" in sys.argv: replay(sys.argv[1], sys.argv[sys.argv.index("--replay") + 1])
    main()
