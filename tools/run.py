#!/usr/bin/env python3
"""Decides one property: regenerates the encoding from /repo's working tree, runs the property's
solver jobs, replays counterexamples natively, writes the evidence file.
  run.py PROP [--tier quick|thorough] [--job REGEX] [-v]
  run.py --replay PROP JOB INPUTS     run one recorded counterexample against the real code"""
import argparse, hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, time, threading
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, specs
VERIF = build.VERIF
CHECKS = ["--no-standard-checks", "--pointer-check", "--bounds-check", "--div-by-zero-check"]
BASE_OPTS = ["--verbosity", "8", "--object-bits", "12", "--unwinding-assertions", "--no-malloc-may-fail", "--drop-unused-functions", "--slice-formula"]
MEM = 6 << 30
T0 = time.time()
STOP = threading.Event()      # a confirmed violation ends the run
DEADLINE = 840                # a quick check that has no answer by then says so

def log(*a):
    if VERBOSE: sys.stdout.write(" ".join(str(x) for x in ("[%6.1f]" % (time.time() - T0),) + a) + "\n"); sys.stdout.flush()
VERBOSE = False
KEEP_GOING = False

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    os.setsid()

def run(cmd, timeout, out):
    if STOP.is_set(): return None
    p = subprocess.Popen(cmd, stdout=open(out, "w"), stderr=subprocess.STDOUT, preexec_fn=limits)
    end = time.time() + timeout
    while True:
        try:
            return p.wait(timeout=0.2)
        except subprocess.TimeoutExpired:
            if time.time() > end or time.time() - T0 > DEADLINE or STOP.is_set():
                try: os.killpg(p.pid, 9)
                except OSError: pass
                p.wait()
                return None

def key(defs): return hashlib.sha1(" ".join(sorted(defs)).encode()).hexdigest()[:10]

class Work:
    def __init__(self, root):
        self.root = root; self.dst = os.path.join(root, "src"); self.lock = threading.Lock()
        self.libs, self.models = {}, {}
    def prepare(self, jobs, native=False):
        """Compile the library configurations and models these jobs need."""
        sfx = "n" if native else "g"
        jl = []
        for j in jobs:
            lk = (tuple(j.lib), j.api, native)
            if lk not in self.libs:
                d = os.path.join(self.root, sfx + "lib-" + key(j.lib + (j.api or ())))
                js = build.lib_jobs(self.dst, d, list(j.lib), native, j.api)
                self.libs[lk] = (d, [x[2] for x in js]); jl += js
            mk = (tuple(j.lib), tuple(j.model), native)
            if mk not in self.models:
                m = os.path.join(self.root, sfx + "mod-" + key(list(j.lib) + list(j.model)))
                js = build.model_jobs(self.dst, self.libs[lk][0], m, list(j.lib) + list(j.model), native)
                self.models[mk] = [x[2] for x in js]; jl += js
        # largest sources first
        jl.sort(key=lambda x: -os.path.getsize(x[1]) - (10**7 if "typed" in x[1] else 0))
        build.compile_jobs(jl)
    def link(self, j, native=False):
        hd = os.path.join(self.root, ("n" if native else "g") + "h-" + re.sub(r"\W", "_", j.name))
        bdir, libobjs = self.libs[(tuple(j.lib), j.api, native)]
        hj = build.harness_job(self.dst, bdir, hd, j.harness, list(j.lib) + list(j.model) + list(j.defs), native)
        build.compile_one(hj)
        objs = libobjs + self.models[(tuple(j.lib), tuple(j.model), native)] + [hj[2]]
        out = os.path.join(hd, "native" if native else "all.gb")
        cmd = (["gcc", "-fsanitize=address,undefined"] if native else ["goto-cc", "--function", "harness"]) + objs + ["-o", out] + (["-lm", "-lpthread"] if native else [])
        rc, o = build.sh(cmd)
        if rc: raise build.BuildError("link failed: " + o[-2000:])
        return hd, out

_loops = {}
def lib_loops(gb):
    """Loops of the library itself (not of the model or the harness)."""
    if gb not in _loops:
        o = subprocess.run(["cbmc", gb, "--function", "harness", "--drop-unused-functions", "--show-loops", "--json-ui"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=120).stdout
        r = []
        for e in json.loads(o):
            for l in e.get("loops", []):
                f = l["sourceLocation"].get("file", "")
                if ("/src/internal/" in f or "/src/shmem" in f or "/src/include/" in f or "/include/" in f) and "/model/" not in f and not f.endswith("setup_impl.c") and "init" not in l["name"]: r.append(l["name"])
        _loops[gb] = r
    return _loops[gb]

def cbmc_cmd(j, gb, extra):
    c = ["cbmc", gb, "--function", "harness", "--unwind", str(j.unwind)] + BASE_OPTS
    if j.arrays_uf: c.append("--arrays-uf-always")
    us = [j.unwindset] if j.unwindset else []
    if j.libunwind: us += ["%s:%d" % (l, j.libunwind) for l in lib_loops(gb)]
    if us: c += ["--unwindset", ",".join(us)]
    c += CHECKS if j.checks else CHECKS[:1]
    return c + list(j.opts) + extra

def parse(out):
    txt = open(out, errors="replace").read()
    try: data = json.loads(txt)
    except ValueError:
        return None, {}, txt[-1500:]
    res, meta, msgs = None, {"solver_s": 0.0, "vars": 0, "clauses": 0, "vccs": ""}, []
    for e in data:
        if "result" in e: res = e["result"]
        t = e.get("messageText", "")
        m = re.match(r"Runtime Solver: ([\d.e+-]+)s", t)
        if m: meta["solver_s"] += float(m.group(1))
        m = re.match(r"Runtime Symex: ([\d.e+-]+)s", t)
        if m: meta["symex_s"] = float(m.group(1))
        m = re.match(r"(\d+) variables, (\d+) clauses", t)
        if m: meta["vars"], meta["clauses"] = int(m.group(1)), int(m.group(2))
        m = re.match(r"Generated (\d+) VCC\(s\), (\d+) remaining", t)
        if m: meta["vccs"] = (int(m.group(1)), int(m.group(2)))
        if e.get("messageType") in ("ERROR", "WARNING"): msgs.append(t)
    return res, meta, "\n".join(msgs)

_fn_seen = {}
def functions_of(j, gb, hd):
    # one job per harness and library configuration is enough
    k = (j.harness, j.lib, j.defs if j.fns else ())
    if k in _fn_seen: return set()
    _fn_seen[k] = 1
    o = os.path.join(hd, "fn.json")
    rc = run(["cbmc", gb, "--function", "harness", "--drop-unused-functions", "--list-goto-functions", "--json-ui"], 60, o)
    fns = set()
    try:
        for e in json.load(open(o)):
            for f in e.get("functions", []):
                src = f.get("sourceLocation", {}).get("file", "")
                if f.get("isBodyAvailable"): fns.add(f["name"])
    except (ValueError, OSError): pass
    return fns

def inputs_from_trace(out):
    data = json.loads(open(out, errors="replace").read())
    for e in data:
        for r in e.get("result", []):
            tr = r.get("trace")
            if not tr: continue
            ins = []
            for s in tr:
                if s.get("stepType") == "input":
                    v = s["values"][0]
                    b = v.get("binary")
                    ins.append((re.sub(r"\s", "_", s["inputID"]), int(b, 2) if b else int(re.sub(r"[uUlL]+$", "", v.get("data", "0")))))
            return ins
    return None

def native_replay(work, j, inputs, hd):
    """Runs the harness natively (gcc, ASan+UBSan) on the solver's inputs. True if it violates."""
    with work.lock:
        work.prepare([j], native=True)
    nd, exe = work.link(j, native=True)
    env = dict(os.environ, VH_INPUTS=inputs, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=1", UBSAN_OPTIONS="print_stacktrace=1:exitcode=1")
    try:
        p = subprocess.run([exe], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=30, text=True, errors="replace")
        rc, o = p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        rc, o = "timeout", (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
    bad = False; why = ""
    m = re.search(r"REPLAY-VIOLATION (.*)", o)
    if m and "BOUND:" not in m.group(1): bad, why = True, m.group(1)
    m = re.search(r"ERROR: AddressSanitizer: (.*)", o) or re.search(r"runtime error: (.*)", o)
    if not bad and m and rc != 0: bad, why = True, "memory error: " + m.group(1)
    if not bad and isinstance(rc, int) and rc < 0: bad, why = True, "process died with signal %d" % -rc
    if rc == "timeout": bad, why = True, "real code does not terminate on this input"
    return bad, why, o

def stopped(j):
    return dict(job=j.name, harness=j.harness, desc=j.desc, violations=[], errors=[], unconfirmed=[], known=None, status="not run: a violation was already confirmed")

def do_job(work, j):
    if STOP.is_set(): return stopped(j)
    r = do_job1(work, j)
    if not STOP.is_set() and j.libunwind and r["errors"] and not r["violations"] and any("unwinding" in e or "bound exceeded" in e for e in r["errors"]):
        import copy
        j2 = copy.copy(j); j2.libunwind = None       # the tight loop bound does not fit this tree
        r = do_job1(work, j2); r["tight_bound_failed"] = True
    if STOP.is_set() and not r["violations"]: return stopped(j)
    if r["violations"] and not j.known and not KEEP_GOING: STOP.set()
    return r

def do_job1(work, j):
    r = dict(job=j.name, harness=j.harness, desc=j.desc, defs=list(j.defs), lib=list(j.lib), model=list(j.model), unwind=j.unwind,
             violations=[], errors=[], unconfirmed=[], known=None, status="ok")
    t = time.time()
    try:
        hd, gb = work.link(j)
    except build.BuildError as e:
        r["errors"].append(str(e)); r["status"] = "error"; return r
    out = os.path.join(hd, "out.json")
    rc = run(cbmc_cmd(j, gb, ["--json-ui"]), j.timeout, out)
    if rc is None:
        r["errors"].append("timeout after %d s" % j.timeout); r["status"] = "error"; r["wall_s"] = time.time() - t; return r
    res, meta, msgs = parse(out)
    r.update(meta)
    if res is None:
        r["errors"].append("no verdict (rc=%s): %s" % (rc, msgs)); r["status"] = "error"; r["wall_s"] = time.time() - t; return r
    nb = sorted(set(re.findall(r"no body for (?:function|callee) '?((?:shmem|OSHMPI|vh_|mm_|MPI_)\w*)", msgs)))
    if nb: r["errors"].append("functions without a body: " + " ".join(nb))
    r["functions"] = functions_of(j, gb, hd)
    n = dict(total=0, prop=0, builtin=0, unwind=0, witness=0)
    cands = []
    for p in res:
        d, st = p.get("description", ""), p["status"]
        n["total"] += 1
        if d.startswith("WITNESS"):
            n["witness"] += 1
            if st != "FAILURE": r["errors"].append("vacuous: %s not reachable" % d)
        elif d.startswith("PROP"):
            n["prop"] += 1
            if st == "FAILURE": cands.append((0 if "BOUND:" not in d else 3, p))
        elif "unwinding" in d or "recursion" in d:
            n["unwind"] += 1
            if st == "FAILURE": cands.append((2, p))
        else:
            n["builtin"] += 1
            if st == "FAILURE": cands.append((1, p))
        if st not in ("SUCCESS", "FAILURE"): r["errors"].append("undecided: %s (%s)" % (d, st))
    r["obligations"] = n
    if n["witness"] == 0: r["errors"].append("harness has no witness")
    r["decide_s"] = time.time() - t
    cands.sort(key=lambda c: c[0])
    done = 0
    for kind, p in cands:
        if kind <= 1 and done >= 4: break
        if r["violations"]: break
        done += 1
        loc = p.get("sourceLocation", {})
        where = "%s:%s %s" % (os.path.basename(loc.get("file", "?")), loc.get("line", "?"), loc.get("function", "?"))
        txt = "%s (%s)" % (re.sub(r"^PROP ", "", p["description"]), where)
        tout = os.path.join(hd, "trace%d.json" % done)
        rc = run(cbmc_cmd(j, gb, ["--json-ui", "--trace", "--property", p["property"]]), j.timeout, tout)
        ins = None
        try: ins = inputs_from_trace(tout) if rc is not None else None
        except ValueError: pass
        if ins is None:
            r["errors"].append("counterexample without trace: " + txt); continue
        rd = os.path.join(VERIF, "evidence", "replay", j.prop, re.sub(r"\W", "_", j.name))
        os.makedirs(rd, exist_ok=True)
        inf = os.path.join(rd, "inputs%d.txt" % done)
        open(inf, "w").write("".join("%s %d\n" % x for x in ins))
        try: bad, why, o = native_replay(work, j, inf, hd)
        except build.BuildError as e:
            r["errors"].append("replay build failed: %s (for %s)" % (e, txt)); continue
        open(os.path.join(rd, "replay%d.log" % done), "w").write("%s\nreproduce: python3 %s --replay %s %s %s\n%s" % (txt, os.path.abspath(__file__), j.prop, j.name, inf, o))
        log("  candidate", j.name, txt, "-> reproduced: " + why if bad else "-> NOT reproduced: " + o[-200:])
        if bad: r["violations"].append(dict(what=txt, replayed=why, replay=os.path.join(rd, "replay%d.log" % done)))
        elif kind == 1: r["unconfirmed"].append(txt)
        elif kind >= 2: r["errors"].append("bound exceeded: " + txt)
        else: r["errors"].append("counterexample not reproduced natively: " + txt + " :: " + o[-300:])
    if r["violations"]: r["status"] = "violation"
    elif r["errors"]: r["status"] = "error"
    r["wall_s"] = time.time() - t
    log(j.name, r["status"], "%.1fs" % r["wall_s"], "solver %.1fs" % r.get("solver_s", 0), r["errors"][:3] if r["errors"] else "", r["unconfirmed"][:5] if r["unconfirmed"] else "")
    return r

def make_work():
    base = os.environ.get("VH_WORK")
    if base:                       # development aid: keep builds of one unchanged tree
        os.makedirs(base, exist_ok=True)
        return Work(base), True
    return Work(tempfile.mkdtemp(prefix="vh-")), False

def lib_functions(dst):
    names = set()
    for p in build.src_files(dst):
        if p.endswith((".c", ".h")):
            names.update(re.findall(r"\b((?:OSHMPI|OSHMPIU|shmem|shmemx|pshmem)\w*)\s*\(", open(p, errors="replace").read()))
    return names

def main():
    global VERBOSE, KEEP_GOING, DEADLINE
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("rest", nargs="*")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--job"); ap.add_argument("-v", action="store_true"); ap.add_argument("--replay", action="store_true"); ap.add_argument("--all", action="store_true")
    ap.add_argument("-j", type=int, default=8)
    a = ap.parse_args()
    VERBOSE = a.v; KEEP_GOING = a.all
    if a.tier != "quick": DEADLINE = 1e9
    jobs = [j for j in specs.jobs() if j.prop == a.prop]
    if a.replay:
        jobs = [j for j in jobs if j.name == a.rest[0]]
        work, keep = make_work()
        try:
            build.regen(work.dst)
            bad, why, o = native_replay(work, jobs[0], os.path.abspath(a.rest[1]), work.root)
        finally:
            if not keep: shutil.rmtree(work.root, ignore_errors=True)
        print(o); print("reproduced: " + why if bad else "not reproduced")
        sys.exit(1 if bad else 0)
    if a.tier == "quick": jobs = [j for j in jobs if j.tier == "q"]
    if a.job: jobs = [j for j in jobs if re.search(a.job, j.name)]
    if not jobs: print("no jobs for", a.prop); sys.exit(2)
    work, keep = make_work()
    rd = os.path.join(VERIF, "evidence", "replay", a.prop)
    shutil.rmtree(rd, ignore_errors=True)
    known = json.load(open(os.path.join(VERIF, "known_findings.json")))
    try:
        try:
            if os.path.exists(work.dst): shutil.rmtree(work.dst)
            build.regen(work.dst)
            log("sources regenerated")
            work.prepare(jobs)
        except build.BuildError as e:
            print("ERROR cannot build the encoding:", e); sys.exit(2)
        log("encoding compiled")
        with ThreadPoolExecutor(a.j) as ex:
            results = list(ex.map(lambda j: do_job(work, j), sorted(jobs, key=lambda j: -j.weight)))
        libfns = lib_functions(work.dst)
    finally:
        if not keep: shutil.rmtree(work.root, ignore_errors=True)
    byname = {j.name: j for j in jobs}
    rc = 0; viol = []; fns = set()
    for r in results:
        j = byname[r["job"]]
        fns |= r.pop("functions", set()) & libfns
        if r["status"].startswith("not run"): continue
        if j.known:
            # companion job of a listed finding: it explores exactly the recorded region
            if r["status"] == "violation":
                k = known["findings"].get(j.known, {})
                print("KNOWN-FINDING: property=%s %s" % (a.prop, k.get("what", j.known)))
                r["known"] = j.known
            elif r["status"] == "ok": print("note: known finding %s no longer fails" % j.known)
            else:
                print("ERROR job=%s %s" % (r["job"], "; ".join(r["errors"])[:600])); rc = max(rc, 2) if rc != 1 else 1
            continue
        for v in r["violations"]:
            viol.append(v)
            print("VIOLATION property=%s replay=%s" % (a.prop, v["replay"]))
            print("  %s: %s -- native replay: %s" % (r["job"], v["what"], v["replayed"]))
            rc = 1
        if r["errors"] and not r["violations"]:
            print("ERROR job=%s %s" % (r["job"], "; ".join(r["errors"])[:900]))
            if rc == 0: rc = 2
    ob = lambda k: sum(r.get("obligations", {}).get(k, 0) for r in results)
    info = specs.INFO.get(a.prop, {})
    ev = dict(property=a.prop, tier=a.tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="other",
        coverage=dict(
            explanation="Bounded symbolic model checking: the library's own sources, regenerated and compiled from /repo's working tree, are executed symbolically by CBMC on top of a model of MPI; every obligation below is decided by the SAT/SMT back end for all values of the symbolic inputs within the stated bounds. Counterexamples are replayed natively against the same sources.",
            functions_encoded=sorted(fns), n_functions_encoded=len(fns),
            bounds=info.get("bounds", ""), outside=info.get("outside", ""), stubs=specs.STUBS,
            obligations=dict(total=ob("total"), property=ob("prop"), memory_safety=ob("builtin"), unwinding=ob("unwind"), witnesses=ob("witness")),
            queries=len(results), solver_s=round(sum(r.get("solver_s", 0) for r in results), 2),
            jobs=[{k: (v if not isinstance(v, float) else round(v, 2)) for k, v in r.items() if k != "violations"} for r in results]),
        assumptions=info.get("assumptions", []) + specs.COMMON_ASSUMPTIONS,
        wall_s=round(time.time() - T0, 2),
        violations=len(viol), violation_list=[dict(what=v["what"], replay=v["replay"], replayed=v["replayed"]) for v in viol])
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not a.job:
        json.dump(ev, open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w"), indent=1)
    print("%s %s: %d jobs, %d obligations, solver %.1f s, wall %.1f s -> %s" % (a.prop, a.tier, len(results), ob("total"), ev["coverage"]["solver_s"], ev["wall_s"], {0: "held", 1: "VIOLATED", 2: "ERROR"}[rc]))
    sys.exit(rc)

if __name__ == "__main__":
    main()
