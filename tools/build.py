"""Regenerates the encoding from /repo's working tree: copies sources, runs the code
generators, compiles everything with goto-cc (and with gcc for replay)."""
import hashlib, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VH_REPO", "/repo")
MODEL = os.path.join(VERIF, "model")

class BuildError(Exception):
    pass

def sh(cmd, cwd=None, timeout=300):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    return p.returncode, p.stdout

def autogen_commands(text):
    """The code generation commands of autogen.sh, in order (third-party and autotools parts left out)."""
    t = re.sub(r"\\\n\s*", " ", text)
    cmds = []
    for line in t.split("\n"):
        s = line.strip()
        if re.match(r"cp\s+\S*shmem\.h\.in\.tpl", s) or re.match(r"\./maint/build_(typed|sized)_api\.pl", s) or s.startswith("insert_file_by_key "):
            cmds.append(s)
    return cmds

def regen(dst):
    """Copy the working tree's sources into dst and run its code generators there."""
    os.makedirs(dst, exist_ok=True)
    for d in ("include", "maint"):
        shutil.copytree(os.path.join(REPO, d), os.path.join(dst, d), ignore=shutil.ignore_patterns("*.in~", "*_typed.h", "*_sized.h", "shmem.h.in"))
    def ign(d, names):
        r = [n for n in names if n.endswith(("_typed.c", "_sized.c", ".o", ".lo"))]
        if os.path.basename(d) == "src":
            r += [n for n in names if n in ("openpa", ".libs", ".deps")]
        return r
    shutil.copytree(os.path.join(REPO, "src"), os.path.join(dst, "src"), ignore=ign)
    ag = open(os.path.join(REPO, "autogen.sh")).read()
    cmds = autogen_commands(ag)
    def run(c):
        a = c.split()
        if a[0] == "cp":
            shutil.copy(os.path.join(dst, a[1]), os.path.join(dst, a[2])); return
        rc, out = sh(a, cwd=dst)
        if rc: raise BuildError("code generation failed: %s\n%s" % (c, out))
    gens = [c for c in cmds if not c.startswith("insert_file_by_key")]
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(run, gens))
    for c in cmds:
        m = re.match(r'insert_file_by_key\s+"([^"]+)"\s+(\S+)\s+(\S+)', c)
        if not m: continue
        key, f, orig = m.groups()
        ins = open(os.path.join(dst, f)).read()
        if ins and not ins.endswith("\n"): ins += "\n"
        out = []
        for line in open(os.path.join(dst, orig)).read().splitlines(True):
            out.append(line)
            if key in line: out.append(ins)
        open(os.path.join(dst, orig), "w").write("".join(out))
    for h in ("shmem.h", "shmemx.h"):
        p = os.path.join(dst, "include", h + ".in")
        t = open(p).read()
        t = re.sub(r"@OSHMPI_NUMVERSION@", "20000300", t)
        t = re.sub(r"@[A-Z_]*VERSION@", "2.0", t)
        t = re.sub(r"@[A-Za-z_]+@", "", t)
        open(os.path.join(dst, "include", h), "w").write(t)
    # linker symbols of the data segment -> model functions; function-local statics -> one per PE
    for root, _, files in os.walk(os.path.join(dst, "src")):
        for f in files:
            if not f.endswith((".c", ".h")) or f.startswith("dlmalloc"): continue
            p = os.path.join(root, f); t = open(p).read(); o = t
            t = re.sub(r"&\s*__data_start\b", "mm_data_start_()", t)
            t = re.sub(r"&\s*_end\b", "mm_data_end_()", t)
            if f.endswith(".c"):
                t = re.sub(r"^([ \t]*)static\s+((?:unsigned |signed )?(?:int|long|size_t|uint\w+|int\w+|MPI_Aint))\s+(\w+)\s*=\s*([^;,{]+);",
                           lambda m: "%sstatic %s %s__pe[8] = {%s};\n#define %s %s__pe[mm_me]" % (m.group(1), m.group(2), m.group(3), ", ".join([m.group(4)] * 8), m.group(3), m.group(3)),
                           t, flags=re.M)
            if t != o: open(p, "w").write(t)
    sroa_sources(dst)
    if os.environ.get("VH_WORK"):
        global TREE
        h = hashlib.sha1()
        for root, _, files in sorted(list(os.walk(dst)) + list(os.walk(MODEL))):
            for f in sorted(files):
                if f.endswith((".h", ".c")) and not (root.startswith(MODEL) and f.endswith(".c")): h.update(f.encode() + open(os.path.join(root, f), "rb").read())
        TREE = h.hexdigest()
    return dst
TREE = ""

# ---- library-wide struct variables are split into one variable per member, so that a write
# ---- through a pointer into one member does not blur the others in the encoding
def src_files(dst):
    for root, _, files in os.walk(os.path.join(dst, "src")):
        for f in files:
            if f.endswith((".c", ".h")) and not f.startswith("dlmalloc"): yield os.path.join(root, f)

def sroa_sources(dst):
    texts = {p: open(p).read() for p in src_files(dst)}
    allt = "\n".join(texts.values())
    names, hdrs = {}, set()
    for p, t in texts.items():
        for m in re.finditer(r"^extern\s+(OSHMPI_\w+_t)\s+(OSHMPI_\w+)\s*;", t, re.M):
            names[m.group(2)] = m.group(1)
            if p.endswith(".h"): hdrs.add(os.path.relpath(p, os.path.join(dst, "src")))
    plan = {}
    for v, ty in names.items():
        members, ok = set(), True
        for m in re.finditer(r"\b%s\b(?!\s*\()([^\n]*)" % v, allt):
            rest = m.group(1)
            mm = re.match(r"\s*\.\s*(\w+)", rest)
            if mm: members.add(mm.group(1)); continue
            line = allt[allt.rfind("\n", 0, m.start()) + 1:allt.find("\n", m.start())]
            if re.match(r"\s*(extern\s+)?%s\s+%s\s*(=\s*\{\s*0?\s*\}\s*)?;" % (ty, v), line): continue
            if re.match(r"\s*(\*|//|/\*)", line): continue
            ok = False
        if ok: plan[v] = (ty, sorted(members))
    for p, t in texts.items():
        o = t
        for v, (ty, members) in plan.items():
            t = re.sub(r"^extern\s+%s\s+%s\s*;" % (ty, v), '#include "vh_sroa_%s.h"' % v, t, flags=re.M)
            t = re.sub(r"^%s\s+%s\s*(=\s*\{\s*0?\s*\}\s*)?;" % (ty, v), "/* split */", t, flags=re.M)
            t = re.sub(r"\b%s\s*\.\s*(\w+)" % v, r"%s__\1" % v, t)
        if t != o: open(p, "w").write(t)
    import json
    json.dump(plan, open(os.path.join(dst, "sroa.json"), "w"))
    json.dump(sorted(hdrs), open(os.path.join(dst, "sroa_hdrs.json"), "w"))

def sroa_text(dst, t):
    import json
    plan = json.load(open(os.path.join(dst, "sroa.json")))
    for v in plan: t = re.sub(r"\b%s\s*\.\s*(\w+)" % v, r"%s__\1" % v, t)
    return t

def sroa_config(dst, bdir, defs):
    """Per build configuration: which members exist; declarations, definitions, PE switching."""
    import json
    plan = json.load(open(os.path.join(dst, "sroa.json")))
    gd = os.path.join(bdir, "gen"); os.makedirs(gd, exist_ok=True)
    def emit(pl):
        for v, (ty, ms) in pl.items():
            open(os.path.join(gd, "vh_sroa_%s.h" % v), "w").write("".join(
                "extern __typeof__(((%s *) 0)->%s) %s__%s;\n" % (ty, m, v, m) for m in ms))
        c = '#include <shmem.h>\n#include <shmemx.h>\n#include "oshmpi_impl.h"\n'
        c += "".join('#include "%s"\n' % os.path.join(dst, "src", h) for h in json.load(open(os.path.join(dst, "sroa_hdrs.json"))) if not h.endswith("oshmpi_impl.h")) + '#include "vh.h"\n'
        sw = ""
        for v, (ty, ms) in pl.items():
            for m in ms:
                c += "__typeof__(((%s *) 0)->%s) %s__%s;\n" % (ty, m, v, m)
                if v != "OSHMPI_env":
                    c += "static __typeof__(((%s *) 0)->%s) sv_%s__%s[NPE];\n" % (ty, m, v, m)
                    sw += "    sv_{0}__{1}[from] = {0}__{1}; {0}__{1} = sv_{0}__{1}[to];\n".format(v, m)
        open(os.path.join(gd, "vh_sroa.c"), "w").write(c + "void vh_sroa_switch(int from, int to)\n{\n" + sw + "}\n")
    emit(plan)
    for _ in range(4):
        rc, out = sh(["gcc", "-fsyntax-only", "-fmax-errors=0", os.path.join(gd, "vh_sroa.c"), "-I" + gd] + flags(dst, defs, False) + ["-DVH_NATIVE", "-include", os.path.join(MODEL, "shim.h")])
        if rc == 0: break
        bad = set(re.findall(r"has no member named .(\w+)", out))
        off = set(re.findall(r"(OSHMPI_\w+_t). undeclared", out))      # compiled out in this configuration
        for v, (ty, ms) in plan.items():
            if ty in off: open(os.path.join(gd, "vh_sroa_%s.h" % v), "w").write("")
        plan = {v: (ty, ms) for v, (ty, ms) in plan.items() if ty not in off}
        if not bad and not off: raise BuildError("splitting library variables failed:\n" + out[:3000])
        plan = {v: (ty, [m for m in ms if m not in bad]) for v, (ty, ms) in plan.items()}
        emit(plan)
    return gd

SKIP = {"dlmalloc.c"}
def lib_sources(dst, api=None):
    out = []
    for d in ("src/internal", "src/internal/util", "src/internal/util/gpu", "src/shmem", "src/shmemx"):
        p = os.path.join(dst, d)
        if not os.path.isdir(p): continue
        for f in sorted(os.listdir(p)):
            if not f.endswith(".c") or f in SKIP: continue
            if d.endswith("gpu") and f != "fallback.c": continue
            if api and d == "src/shmem" and f[:-2] not in api and f != "setup.c": continue
            out.append(os.path.join(d, f))
    return out

def incs(dst):
    return ["-I" + os.path.join(MODEL, "include")] + ["-I" + os.path.join(dst, d) for d in ("include", "src/include", "src/internal", "src/internal/util")]

def flags(dst, defs, native):
    f = ["-w", "-DONLY_MSPACES", "-std=gnu11", "-I" + MODEL] + incs(dst) + ["-D" + d for d in defs]
    if native: f += ["-DVH_NATIVE", "-g", "-O0", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
    return f

def compile_one(args):
    cc, src, obj, fl, shim = args
    cmd = [cc, "-c", src, "-o", obj] + fl + (["-include", os.path.join(MODEL, "shim.h")] if shim else [])
    cached = os.environ.get("VH_WORK") and obj + ".key"     # development only: reuse objects of identical input
    if cached:
        k = TREE + hashlib.sha1(open(src, "rb").read()).hexdigest() + repr(cmd)
        if os.path.exists(obj) and os.path.exists(cached) and open(cached).read() == k: return obj
    rc, out = sh(cmd)
    if cached and not rc: open(cached, "w").write(k)
    if rc: raise BuildError("compiling %s: %s" % (src, out[-3000:]))
    return obj

def compile_jobs(jobs, workers=8):
    with ThreadPoolExecutor(workers) as ex:
        return list(ex.map(compile_one, jobs))

def lib_jobs(dst, bdir, defs, native=False, api=None):
    """The library itself in one build configuration."""
    os.makedirs(bdir, exist_ok=True)
    gd = sroa_config(dst, bdir, defs)
    cc = "gcc" if native else "goto-cc"
    return [(cc, os.path.join(dst, s), os.path.join(bdir, s.replace("/", "_") + ".o"), flags(dst, defs, native) + ["-I" + gd], True) for s in lib_sources(dst, api)]

def model_jobs(dst, bdir, mdir, defs, native=False):
    """The environment model for one set of model bounds (defs: library and model settings)."""
    os.makedirs(mdir, exist_ok=True)
    gd = os.path.join(bdir, "gen")
    cc = "gcc" if native else "goto-cc"
    fl = flags(dst, defs, native) + ["-I" + gd]
    jobs = [(cc, os.path.join(MODEL, s), os.path.join(mdir, s + ".o"), fl, False) for s in ("mpi_model.c", "env_model.c")]
    jobs.append((cc, os.path.join(MODEL, "vh_lib.c"), os.path.join(mdir, "vh_lib.o"), fl, True))
    jobs.append((cc, os.path.join(gd, "vh_sroa.c"), os.path.join(mdir, "vh_sroa.o"), fl, True))
    if native: jobs.append((cc, os.path.join(MODEL, "native.c"), os.path.join(mdir, "native.o"), fl, False))
    return jobs

def harness_job(dst, bdir, hdir, harness, defs, native=False):
    os.makedirs(hdir, exist_ok=True)
    for f in [x for x in os.listdir(os.path.join(VERIF, "harness")) if x.endswith(".h")] + [harness + ".c"]:
        open(os.path.join(hdir, f), "w").write(sroa_text(dst, open(os.path.join(VERIF, "harness", f)).read()))
    cc = "gcc" if native else "goto-cc"
    fl = flags(dst, defs, native) + ["-I" + os.path.join(bdir, "gen"), "-I" + hdir]
    return (cc, os.path.join(hdir, harness + ".c"), os.path.join(hdir, "h.o"), fl, True)
