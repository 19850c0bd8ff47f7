"""What is decided for each property: the solver jobs, their bounds, and what they leave out."""
class Job:
    def __init__(self, prop, name, harness, defs="", lib="", model="", unwind=70, unwindset="", opts=(), tier="q",
                 timeout=300, known=None, desc="", checks=True, arrays_uf=True, weight=1, fns=False, api=None, libunwind=None):
        self.prop, self.name, self.harness = prop, name, harness
        self.defs = tuple(defs.split() if isinstance(defs, str) else defs); self.lib = tuple(lib.split()); self.model = tuple(model.split())
        self.unwind, self.unwindset, self.opts, self.tier, self.timeout = unwind, unwindset, tuple(opts), tier, timeout
        self.known, self.desc, self.checks, self.arrays_uf, self.weight = known, desc, checks, arrays_uf, weight
        self.fns, self.libunwind = fns, libunwind
        self.api = tuple(sorted(api.split())) if api else None     # files of src/shmem the harness needs (None: all)

STUBS = ("MPI (model/mpi_model.c: windows with local/remote completion state, messages, collectives, derived datatypes, communicators)",
         "dlmalloc mspace (model/env_model.c: contract of a bump or arbitrary-placement allocator)",
         "getenv/sysconf/snprintf/strtok_r/strto* (model/env_model.c)", "data segment bounds __data_start/_end (MM_DATASZ bytes per PE)")
COMMON_ASSUMPTIONS = ["MPI behaves as modelled in model/mpi_model.c", "GPU back ends and the asynchronous progress thread are off (default configuration)"]
INFO = {}
_jobs = []
def J(*a, **k): _jobs.append(Job(*a, **k))
def jobs(): return _jobs

# ---- R01
INFO["R01"] = dict(bounds="2 PEs; 0..3 int elements (12 bytes); any offset, PE, contents; heap 64 B pages, data segment 64 B, two spaces of 64 B", outside="counts above the bound")
_ops = ["put", "put_nbi", "get", "get_nbi"]
_regs = ["heap", "data", "space", "space2"]
for r in range(4):
    for o in range(4):
        J("R01", "%s-%s" % (_ops[o], _regs[r]), "r01", "OPK=%d REGION=%d" % (o, r), model="MM_MAXB=12", tier="q" if r < 3 or o in (0, 2) else "t", desc="%s on the %s through the default context" % (_ops[o], _regs[r]))
        if r >= 2: J("R01", "%s-%s-ctx" % (_ops[o], _regs[r]), "r01", "OPK=%d REGION=%d USECTX=1" % (o, r), model="MM_MAXB=12", tier="q" if r == 3 and o in (0, 3) else "t", desc="%s on the %s through an explicit context" % (_ops[o], _regs[r]))

# ---- R02
INFO["R02"] = dict(bounds="2 PEs; data runs: 0..3 ints, strides 1..3, any offset, PE, contents, four regions; descriptor runs: 1..2^31-1 elements, strides 1..2^31-1", outside="data movement for larger counts (layout handed to MPI is checked instead); element types other than int (see R03)")
for o in range(2):
    n = ["iput", "iget"][o]
    for r in range(4):
        J("R02", "%s-%s" % (n, _regs[r]), "r02", "OPK=%d REGION=%d USECTX=%d" % (o, r, r == 3), model="MM_MAXB=12", tier="q" if r < 2 or (o == 0 and r == 2) else "t", desc="%s data movement on the %s" % (n, _regs[r]), timeout=600)
    J("R02", "%s-layout" % n, "r02", "OPK=%d DESC" % o, model="MM_MAXB=12", desc="layout %s hands to MPI for any count and stride up to INT_MAX" % n)
    J("R02", "%s-layout-big" % n, "r02", "OPK=%d DESC KF_ONLY" % o, model="MM_MAXB=12", known="R02-%s-intmax" % n, desc="counts or strides above INT_MAX")

# ---- R03
INFO["R03"] = dict(bounds="2 PEs; every routine of the typed (24 types), sized (8..128 bits) and byte families, plain and context forms; 1..200 elements (larger: R01; strided: 1..5 elements, strides 1..6; larger in R02), any PE; the transfer or packet handed to MPI is checked", outside="zero counts (R01); C11 generic macros")
for am in range(2):
    for cx in range(2):
        for g in range(6):
            J("R03", "%s-%s%s" % (["block", "pg", "iput", "sized", "iget", "isized"][g], ["direct", "am"][am], "-ctx" if cx else ""), "r03", "AMP=%d GRP=%d USECTX=%d" % (am, g, cx), model="MM_MAXB=16 MM_NTYPE=8",
              unwind=150, checks=False, arrays_uf=False, desc="every %s routine, %s transport, %s form" % (["put/get/put_nbi/get_nbi typed", "p/g", "typed iput", "sized and byte put/get", "typed iget", "sized iput/iget"][g], ["direct", "active-message"][am], ["plain", "context"][cx]))

# ---- R05
INFO["R05"] = dict(bounds="2 PEs both running the library; exactly 2 ints, strides 1..3, any offset, contents; target another PE and the calling PE; heap, data, first and second attached space", outside="larger counts (packets are checked for any count in R03)")
for r in range(4):
    for o in range(6):
        J("R05", "%s-%s" % (["put", "put_nbi", "get", "get_nbi", "iput", "iget"][o], _regs[r]), "r05", "PEFIX=1 OPK=%d REGION=%d" % (o, r), model="MM_MAXB=8", tier="q" if (r, o) in ((0, 0), (0, 5), (1, 4), (2, 2), (3, 0), (3, 3), (3, 4), (1, 1)) else "t", desc="active-message transfer, end to end", timeout=600)
for o in range(6):
    J("R05", "%s-self" % ["put", "put_nbi", "get", "get_nbi", "iput", "iget"][o], "r05", "PEFIX=0 OPK=%d REGION=0" % o, model="MM_MAXB=8", tier="q" if o in (0, 3) else "t", desc="active-message transfer to the calling PE", timeout=600)

# ---- O01..O04
INFO["O01"] = dict(bounds="2 PEs; every history of 2 (thorough: 3) operations out of 14 kinds on heap, data, two attached spaces and any PE, optionally a quiet or fence in between, then the completing call; transports direct, active message and mixed; operation tracking on and off; dynamic windows", outside="longer histories; thread multiple")
for n in ("O02", "O03", "O04"): INFO[n] = dict(INFO["O01"])
_O = dict(checks=False, arrays_uf=False, timeout=600, model="MM_NTYPE=8", api="rma_typed amo_std_typed amo_ext_typed order context coll_activeset coll mem")
_cfgs = [("", "", ""), ("-amrma", 'ENV_RMA="am"', ""), ("-directamo", 'ENV_AMO="direct" NOAM', ""), ("-notrack", "", "VC_NO_OP_TRACKING"), ("-dynwin", "", "VC_DYNAMIC_WIN"), ("-amo-cfgdirect", "NOAM", "VC_DIRECT_AMO VC_DIRECT_RMA")]
for c, d, l in _cfgs:
    J("O01", "quiet" + c, "o01", "FIN=0 MIDQ=1 RGS=5 " + d, lib=l, desc="quiet after 2 operations on the default and a space's context" + c, **_O)
    J("O01", "quiet3" + c, "o01", "FIN=0 MIDQ=1 RGS=6 K=3 " + d, lib=l, tier="t", desc="quiet after 3 operations" + c, **_O)
    J("O02", "fence" + c, "o01", "FIN=1 MIDQ=1 RGS=5 " + d, lib=l, desc="fence after 2 operations" + c, **_O)
    J("O02", "fence3" + c, "o01", "FIN=1 MIDQ=1 RGS=6 K=3 " + d, lib=l, tier="t", desc="fence after 3 operations" + c, **_O)
    for f, n in ((2, "quiet"), (3, "fence")):
        J("O03", "ctx-" + n + c, "o01", "FIN=%d MIDQ=1 RGS=6 " % f + d, lib=l, desc="context %s after 2 operations" % n + c, **_O)
        J("O03", "ctx-" + n + "3" + c, "o01", "FIN=%d MIDQ=1 RGS=6 K=3 " % f + d, lib=l, tier="t", desc="context %s after 3 operations" % n + c, **_O)
    for f, n in ((4, "barrier_all"), (5, "barrier")):
        J("O04", n + c, "o01", "FIN=%d MIDQ=1 RGS=5 " % f + d, lib=l, desc="%s after 2 operations" % n + c, **_O)
for n, d in (("bare", "UNATT=1"), ("ctx", "UNATT=2"), ("used", "UNATT=2 UNATT_OP")):
  for f, fn, p in ((0, "quiet", "O01"), (1, "fence", "O02"), (4, "barrier_all", "O04")):
    J(p, "%s-unattached-%s" % (fn, n), "o01", "FIN=%d RGS=2 K=1 %s" % (f, d), desc=fn + " with a space that is not attached", checks=True, arrays_uf=False)

# ---- C04
INFO["C04"] = dict(bounds="5 PEs, calling PE 0 and 3 (thorough: every PE); sequences of 3 (8 kinds mixed) over every active set (start, log stride 0..2, size) that contains the caller", outside="longer sequences; more PEs; two PEs disagreeing about a set")
_CA = dict(checks=False, arrays_uf=False, libunwind=6, timeout=600, api="coll_activeset reduce_sumprod_aset_typed")
for me in range(5):
    for sq in ("0, 0", "0, 0, 0", "1, 2, 3", "5, 4, 6", "7, 0, 1"):
        J("C04", "seq%s-pe%d" % (sq.replace(", ", ""), me), "aset", "ME=%d SEQ=%s" % (me, sq.replace(" ", "")), model="NPE=5 MM_NTYPE=8", tier="q" if me == 3 and sq != "0, 0" or (me, sq) == (0, "0, 0") else "t", desc="collectives, caller PE %d" % me, **_CA)
    for sq in ("0, 5", "5, 0"):
        J("O04", "set%s-pe%d" % (sq.replace(", ", ""), me), "aset", "ME=%d SEQ=%s" % (me, sq.replace(" ", "")), model="NPE=5 MM_NTYPE=8", tier="q" if me == 3 else "t", desc="participants of sync and barrier, caller PE %d" % me, **_CA)

# ---- C01..C03
INFO["C01"] = dict(bounds="3 PEs; 0..2 ints per PE (collect: any mix; alltoalls: strides 1..2), any root and values; world, shared and strided-split teams; every typed and byte routine: 1..200 elements, layout handed to MPI", outside="more PEs; C11 generic macros")
INFO["C02"] = dict(bounds="3 PEs; active sets (1,0,2), (0,1,2), (0,0,3); 0..2 ints per PE, any root and values, strides 1..2; 64-bit forms: 1..200 elements, layout handed to MPI", outside="other sets (the communicator used is checked for every set in C04)")
_CO = ["broadcast", "collect", "fcollect", "alltoall", "alltoalls", "reduce"]
_CM = "NPE=3 MM_MAXB=16 MM_COLLSZ=48"
def _cvar(o):
    """Count, stride and aliasing variants of collective o: (name, defines, tier-q)"""
    if o == 1: return [("221", "CNTS=2,2,1", 1), ("122", "CNTS=1,2,2", 0), ("200", "CNTS=2,0,0", 0), ("012", "CNTS=0,1,2", 1), ("222", "CNTS=2,2,2", 1)]
    if o == 4: return [("21", "DST=2 SST=1", 1), ("12", "DST=1 SST=2", 0), ("22", "DST=2 SST=2", 1), ("11", "DST=1 SST=1", 0)]
    if o == 5: return [("", "", 1), ("inplace", "INPLACE=1", 1)]
    return [("", "", 1), ("zero", "CNTS=0,0,0 ZERO", 0)]
for o in range(6):
  for vn, vd, vq in _cvar(o):
    for i, s in enumerate(((1, 0, 2), (0, 1, 2), (0, 0, 3))):
        J("C03" if o == 5 else "C02", "%s%s-set%d%d%d" % ((_CO[o], vn) + s), "coll", "OPK=%d SS=%d SL=%d SN=%d " % ((o,) + s) + vd, model=_CM, tier="q" if vq and (i == 0 or o in (0, 2, 3)) and i < 2 else "t", desc="%s over active set %s" % (_CO[o], s), api="coll_activeset reduce_sumprod_aset_typed", timeout=600, arrays_uf=False)
    for i, (tm, s) in enumerate(((0, (0, 1, 3)), (2, (1, 1, 2)), (2, (0, 2, 2)), (1, (0, 1, 3)))):
        if o == 1 and tm == 2: continue     # counts of a split team make the model's copies too large; see the typed jobs
        J("C03" if o == 5 else "C01", "%s%s-%s%d%d%d" % ((_CO[o], vn, ("world", "shared", "split")[tm]) + s), "coll", "TEAM=%d OPK=%d SS=%d SL=%d SN=%d " % ((tm, o) + s) + vd, model=_CM, tier="q" if vq and (i == 0 if o == 1 else i == 2 or i == 0 and o in (0, 3)) else "t", desc="team %s" % _CO[o], api="coll coll_typed team reduce_sumprod_team_typed", timeout=600, arrays_uf=False)
_CD = dict(model="NPE=3 MM_NTYPE=64 MM_NLIVE=0", timeout=600, arrays_uf=False, checks=False)
for o in range(5):
    J("C01", "typed-" + _CO[o], "cdesc", "OPK=%d" % o, lib="VC_NO_STRIDED_CACHE" if o == 4 else "", api="coll coll_typed team", desc="typed and byte forms of team %s, any count" % _CO[o], **_CD)
    if o == 4: J("C01", "typed-alltoalls-strides", "cdesc", "OPK=4 STSYM", lib="VC_NO_STRIDED_CACHE", tier="t", api="coll coll_typed team", desc="alltoalls of any strides", **_CD)
    if o != 1: J("C01", "typed-%s-split" % _CO[o], "cdesc", "OPK=%d SPLIT" % o, lib="VC_NO_STRIDED_CACHE" if o == 4 else "", tier="t", api="coll coll_typed team", desc="typed and byte forms of team %s on a split team, any count" % _CO[o], **_CD)
for t, n, a in ((1, "bitwise", "reduce_bitws_team_typed"), (2, "minmax", "reduce_minmax_team_typed"), (3, "sumprod", "reduce_sumprod_team_typed"), (4, "aset", "coll_activeset reduce_bitws_aset_typed reduce_minmax_aset_typed reduce_sumprod_aset_typed")):
    J("C03", "typed-" + n, "cdesc", "OPK=5 TOPS=%d" % t, api="coll team " + a, desc="every %s reduction: type, operator, count, buffers" % n, **_CD)

# ---- T01, T02
INFO["C03"] = dict(bounds="3 PEs, 2 ints, world, shared, split teams and active sets, in place and not; every typed reduction: any count up to 10^6, type, operator, buffers handed to MPI", outside="the arithmetic itself is MPI's; more PEs")
INFO["T01"] = dict(bounds="4 PEs (thorough 5); parent world, shared, a team without PE 0, a team of every second PE; start, stride, size and xrange any int", outside="more PEs; teams split twice from split teams")
INFO["T02"] = dict(bounds="4 PEs; five pairs of strided teams (overlapping, nested, disjoint), world, shared and invalid; source rank any int", outside="more PEs")
_TM = dict(arrays_uf=False, timeout=600, api="team")
for p in range(4):
    J("T01", "strided-parent%d" % p, "team", "KIND=0 PARENT=%d" % p, model="NPE=4", tier="q" if p != 1 else "t", desc="strided split", **_TM)
    J("T01", "2d-parent%d" % p, "team", "KIND=1 PARENT=%d" % p, model="NPE=4", tier="q" if p in (0, 2) else "t", desc="2D split", **_TM)
J("T01", "strided-5pe", "team", "KIND=0 PARENT=0", model="NPE=5", tier="t", desc="strided split", **_TM)
J("T01", "2d-5pe", "team", "KIND=1 PARENT=0", model="NPE=5", tier="t", desc="2D split", **_TM)
for i, (a, b) in enumerate((((0, 1, 3), (1, 2, 2)), ((1, 2, 2), (0, 1, 4)), ((0, 2, 2), (1, 2, 2)), ((0, 3, 2), (1, 1, 3)), ((1, 1, 3), (0, 1, 3)))):
    J("T02", "translate-%d%d%d-%d%d%d" % (a + b), "team", "KIND=2 A0=%d AS=%d AN=%d B0=%d BS=%d BN=%d" % (a + b) + (" NOMISS" if b[2] == 4 else ""), model="NPE=4", desc="rank translation and queries", **_TM)
for me in (0, 2):
    J("T01", "shared-pe%d" % me, "nodes", "ME=%d" % me, model="NPE=4", tier="q" if me else "t", desc="membership of the shared team for any placement of PEs on nodes", **_TM)
    J("O04", "team-sync-pe%d" % me, "nodes", "ME=%d SYNC" % me, model="NPE=4", tier="q" if me else "t", arrays_uf=False, api="team coll", desc="participants of team sync", timeout=300)

# ---- A01
INFO["A01"] = dict(bounds="every typed routine (plain, ctx, nbi, legacy forms), any operands and old value; active-message path served by the calling PE and by another PE, direct path on any of 2 PEs; heap, data and space with its own context for int, long and uint", outside="NaN operands")
_AMT = [("float", "float", "CL=2 FP"), ("double", "double", "CL=2 FP"), ("int", "int", "CL=1 LEGACY"), ("long", "long", "CL=1 LEGACY"), ("long long", "longlong", "CL=1 LEGACY"),
  ("unsigned int", "uint", "CL=0"), ("unsigned long", "ulong", "CL=0"), ("unsigned long long", "ulonglong", "CL=0"), ("int32_t", "int32", "CL=0"), ("int64_t", "int64", "CL=0"),
  ("uint32_t", "uint32", "CL=0"), ("uint64_t", "uint64", "CL=0"), ("size_t", "size", "CL=1"), ("ptrdiff_t", "ptrdiff", "CL=1")]
_AM = dict(arrays_uf=False, timeout=600, checks=False, api="amo_std_typed amo_ext_typed amo_bitws_typed order")
for t, n, d in _AMT:
    base = ["T=%s" % t, "N=%s" % n]
    for part, pd in ((("", "CL=1"), ("-bits", "CL=3")) if d == "CL=0" else (("", d),)):
        d2 = base + pd.replace("LEGACY", "").split()
        for p2, d3 in (("", d2),) if pd != "CL=1" and "LEGACY" not in pd else (("-ext", base + ["CL=2"]), ("-std", base + ["CL=4"])):
            J("A01", "am-" + n + part + p2, "amo", d3, model="NPE=1 MM_MAXB=8", desc="active-message atomics", **_AM)
            J("A01", "am2-" + n + part + p2, "amo", d3 + ["TGT=1"], model="NPE=2 MM_MAXB=8", tier="q" if n in ("uint", "float") else "t", desc="active-message atomics on another PE", **_AM)
        J("A01", "direct-" + n + part, "amo", d2 + ["MODE=1", "GRP=0", "TGT=1"], model="NPE=2 MM_MAXB=8", desc="atomics through MPI, all forms of the routines", **_AM)
        J("A01", "direct0-" + n + part, "amo", d2 + ["MODE=1", "GRP=0", "TGT=0"], model="NPE=2 MM_MAXB=8", tier="t", desc="atomics through MPI on the calling PE", **_AM)
for t, n, d in _AMT[2:4]:
    base = ["T=%s" % t, "N=%s" % n, "CL=1"]
    J("A01", "am-space-" + n, "amo", base + ["CTX=1", "GRP=2"], model="NPE=1 MM_MAXB=8", tier="q" if n == "int" else "t", desc="active-message atomics on a space through its context", **dict(_AM, api=None))
    J("A01", "am-data-" + n, "amo", base + ["DATA"], model="NPE=1 MM_MAXB=8", tier="q" if n == "int" else "t", desc="active-message atomics on the data segment", **_AM)
    J("A01", "direct-data-" + n, "amo", base + ["DATA", "MODE=1", "TGT=1"], model="NPE=2 MM_MAXB=8", tier="q" if n == "int" else "t", desc="atomics through MPI on the data segment", **_AM)

# ---- A02
INFO["A02"] = dict(bounds="mechanism and hints: every subset of the 14 operations; reading the setting: every single operation, two lists covering all operations, the special values all, none, any_op, unset", outside="malformed lists; build options that fix the mechanism (no run-time choice there)")
_AO = dict(model="MM_RECORD_INFO VH_SARG=10", arrays_uf=False, timeout=600, checks=False, api="amo_std_typed amo_ext_typed amo_bitws_typed order")
J("A02", "any-set", "env_amo", "NSLOT=1 MASK", unwind=100, desc="mechanism and hints for any set of declared operations", **_AO)
J("A02", "one", "env_amo", ["NSLOT=1", "PARSE"], tier="t", unwind=100, desc="any single operation is read as written", **_AO)
for v, n, a in (("all", "all", 16383), ("any_op", "any", 16383), ("", "unset", 16383), ("none", "none", 0), ("xor,for,and,swap,fetch,fadd,finc", "odd", 0x26aa), ("cswap,inc,add,set,fand,or,fxor", "even", 0x1955), ("fetch,fadd,fadd", "dup", 0x28)):
    J("A02", "value-" + n, "env_amo", ['VAL="%s"' % v, "ALLOPS=%d" % a], unwind=100, desc="declared set given as %s" % (v or "nothing"), **_AO)

# ---- S01
INFO["S01"] = dict(bounds="every scalar test and wait routine (14 types, deprecated forms), any comparison, value and variable state; waits over three successive states; heap, data segment and a space; an update arriving as an active message", outside="array and vector forms and signal waits: unimplemented stubs that abort in this version; longer waits")
_SO = dict(arrays_uf=False, timeout=600, checks=False)
for r in range(3):
    J("S01", "test-" + _regs[r], "s01", "MODE=0 REGION=%d" % r, model="NPE=1", desc="tests", api="p2p p2p_typed mem" if r < 2 else None, **_SO)
    J("S01", "wait-" + _regs[r], "s01", "MODE=1 REGION=%d" % r, model="NPE=1", libunwind=5, tier="q" if r < 2 else "t", desc="waits", api="p2p p2p_typed mem" if r < 2 else None, **_SO)
J("S01", "wait-changed", "s01", "MODE=3 REGION=0 FIXCMP=1", model="NPE=1", libunwind=5, desc="deprecated waits", api="p2p p2p_typed mem", **_SO)
for t, n in (("int", "int"), ("unsigned long", "ulong")):
    J("S01", "wait-am-" + n, "s01", ["MODE=2", "T=" + t, "N=" + n], model="NPE=2 MM_MAXB=8", libunwind=5, tier="q" if n == "int" else "t", desc="wait served by an active message", api="p2p p2p_typed amo_std_typed amo_ext_typed", **_SO)

# ---- D01
INFO["D01"] = dict(bounds="two or three strided operations in a row (puts and gets of 2, 4, 8, 16 byte elements, strided exchanges), each with 1..3 elements and any strides 1..3; cache on and off", outside="longer histories (every layout kept is compared on its own key, so a third operation sees any one earlier entry)")
_DD = dict(arrays_uf=False, timeout=600, checks=False, api="rma_typed rma_sized coll coll_typed setup")
for i, (k, q) in enumerate((((0, 1), 1), ((1, 5), 1), ((5, 1), 1), ((1, 2), 1), ((5, 6), 1), ((4, 3), 1), ((2, 1), 0), ((1, 0), 0), ((3, 7), 0), ((6, 0), 0), ((1, 1), 1), ((5, 5), 0), ((0, 1, 0), 0), ((1, 5, 1), 0), ((5, 1, 5), 0), ((4, 7, 2), 0))):
    J("D01", "seq-" + "".join(map(str, k)), "d01", " ".join("K%d=%d" % e for e in enumerate(k)), model="NPE=2 MM_NTYPE=16", tier="q" if q else "t", desc="strided operations in sequence", **_DD)
J("D01", "seq-1-nocache", "d01", "K0=1 K1=5", lib="VC_NO_STRIDED_CACHE", model="NPE=2 MM_NTYPE=16", tier="t", desc="the same without a cache", **_DD)

# ---- M01
INFO["M01"] = dict(bounds="tags: any number of earlier operations (any 32-bit counter value), any MPI tag limit from 32767 to 2^31-1, every kind of request, four in flight; order: two or three requests of any kinds from one PE and a flush", outside="more than four operations in flight per PE")
_MO = dict(arrays_uf=False, timeout=600, checks=False, api="rma_typed amo_std_typed amo_ext_typed order")
for p in range(2):
    J("M01", "tags%d" % p, "m01", "KIND=0 PART=%d" % p, model="NPE=2 MM_MAXB=8", desc="tags of requests and replies", **_MO)
for k in ("01", "10", "12", "20", "03", "14", "51", "62", "53", "24", "061", "216", "130"):
    J("M01", "order-" + k, "m01", "KIND=1 " + " ".join("K%d=%s" % e for e in enumerate(k)), model="NPE=2 MM_MAXB=16 MM_NMSG=10", tier="q" if k not in ("10", "14") else "t", desc="requests in a row and a flush", **_MO)
for k in ("00", "01", "02", "03", "10", "11"):
    J("M01", "cross-" + k, "m01", "KIND=2 " + " ".join("K%d=%s" % e for e in enumerate(k)), model="NPE=2 MM_MAXB=16 MM_NMSG=10", desc="two PEs asking each other at once", **_MO)

# ---- E01
INFO["E01"] = dict(bounds="sizes: any number of up to 5 digits and any suffix, 9-digit numbers with six free digits, numbers of 4 digits and 1 (thorough 2) decimals with any suffix; the documented values of the feature list, the switches and the transport debug modes; the list of atomic operations is decided in A02", outside="exponents, signs, text after the suffix; what SHMEM_INFO and OSHMPI_VERBOSE print")
_EO = dict(arrays_uf=False, timeout=600, checks=False, model="NPE=1", api="setup")
for u in range(5):
    J("E01", "size-int%d" % u, "e01", "KIND=0 ND=%d SUF=%d" % (9 if u < 4 else 6, u), desc="long integer sizes", **_EO)
    J("E01", "size-short%d" % u, "e01", "KIND=0 ND=5 SUF=%d" % u, desc="short integer sizes", **_EO)
    J("E01", "size-frac%d" % u, "e01", "KIND=0 ND=4 NF=1 SUF=%d" % u, desc="fractional sizes", **_EO)
    J("E01", "size-frac2-%d" % u, "e01", "KIND=0 ND=4 NF=2 SUF=%d" % u, tier="t", desc="fractional sizes", **_EO)
for i, (v, w) in enumerate((("all", 15), ("none", 0), ("", 15), ("pt2pt", 1), ("put", 2), ("get", 4), ("acc", 8), ("pt2pt,put,get,acc", 15), ("acc,get", 12), ("put,pt2pt", 3))):
    J("E01", "gpu%d" % i, "e01", ["KIND=1", 'VAL="%s"' % v, "WANT=%d" % w], tier="q" if i in (0, 1, 2, 8, 9) else "t", desc="GPU feature list '%s'" % v, **_EO)
for i, (v, w) in enumerate((("0", 0), ("1", 1), ("", 0), ("2", 1))):
    J("E01", "switch%d" % i, "e01", ["KIND=2", 'VAL="%s"' % v, "WANT=%d" % w], tier="q" if i < 3 else "t", desc="switches set to '%s'" % v, **_EO)
for v, w in (("am", "OSHMPI_DBG_AM"), ("direct", "OSHMPI_DBG_DIRECT"), ("auto", "OSHMPI_DBG_AUTO"), ("", "OSHMPI_DBG_AUTO")):
    J("E01", "mode-" + (v or "unset"), "e01", ["KIND=3", 'VAL="%s"' % v, "WANT=" + w], desc="transport debug modes", **_EO)
# ---- H02
_H = dict(arrays_uf=False, timeout=300, api="mem", model="MM_MAXB=16")
J("H02", "history-4", "h02", "KIND=0 NP=5 K=4", desc="three allocations of any sizes, then an allocation or a release; space of 5 pages", **_H)
J("H02", "history-5", "h02", "KIND=0 NP=6 K=5", tier="q", desc="three allocations of any sizes, then two allocations or releases; space of 6 pages", **_H)
J("H02", "history-6", "h02", "KIND=0 NP=8 K=6", tier="t", desc="three allocations of any sizes, then three allocations or releases; space of 8 pages", **dict(_H, timeout=1500))
J("H02", "calloc", "h02", "KIND=1 NP=5 SMALL", desc="zeroed allocation, counts up to 8 and sizes up to 16", **_H)
J("H02", "calloc-huge", "h02", "KIND=1 NP=5", desc="zeroed allocation, any count and size whose product does not fit", **_H)
J("H02", "align", "h02", "KIND=2 NP=6 AMAX=3", desc="aligned allocation, alignments up to the page size, any size", **_H)
J("H02", "align-big", "h02", "KIND=2 NP=6 AMAX=4 KF_ONLY", known="H02-align-big", desc="alignment above the page size", **_H)
INFO["H02"] = dict(bounds="one space of 5 or 6 pages (8 thorough; page 64 bytes in the model), histories of up to 5 calls (6 thorough), every 64-bit size; alignments 8 to page size; zeroed allocations up to 128 bytes",
                   outside="device memory kinds (not built); releasing pointers that were not allocated (undefined)")

# ---- I02
_I = dict(arrays_uf=False, timeout=400, checks=False, api="rma_typed amo_std_typed amo_ext_typed amo_bitws_typed team coll coll_activeset order mem", model="MM_MAXB=16")
for _m in (0, 1):
    J("I02", "objects-%s" % ("am", "direct")[_m], "i02", "KIND=0 MODE=%d" % _m, desc="any subset of strided, active-set, team, put, get and atomic calls, then finalize, once or twice", **_I)
    J("I02", "objects-space-%s" % ("am", "direct")[_m], "i02", "KIND=0 SPACE MODE=%d" % _m, desc="the same with a memory space created, used and destroyed", **_I)
J("I02", "objects-nocache", "i02", "KIND=0 MODE=0", tier="t", lib="VC_NO_STRIDED_CACHE VC_NO_OP_TRACKING", desc="without layout cache and operation tracking", **_I)
J("I02", "team-left", "i02", "KIND=0 MODE=0 KF_ONLY", known="I02-team-left", desc="a team the program did not destroy", **_I)
for _o, _n in enumerate(("atomic", "put-nbi", "iput", "put-xor", "set-p")):
    for _r in (0, 1):
        J("I02", "arrives-%s-%s" % (_n, "heap data".split()[_r]), "i02", "KIND=1 OP=%d REG=%d" % (_o, _r), tier="q" if _r or _o in (0, 2) else "t",
          desc="active messages without a completing call, then finalize", **dict(_I, model="NPE=2 MM_MAXB=16 MM_NMSG=10"))
INFO["I02"] = dict(bounds="two PEs; one use of each kind of library object in any combination; up to two unfinished operations on four ints, any values, before finalize",
                   outside="operations another PE still issues while this PE is in finalize other than those served by message handlers; objects a program leaks itself (spaces it never destroys)")

# ---- H01
for _o, _n in enumerate(("malloc", "calloc", "align", "realloc", "realloc-0", "realloc-null", "free", "calloc-count-0", "calloc-size-0", "old-names")):
    J("H01", _n, "h01", "OP=%d" % _o, arrays_uf=False, timeout=300, api="mem", model="MM_MAXB=16 MM_MAXZERO=%d" % (24 if _o == 3 else 64), desc="one call with one other block live, any size, the allocator free to place or refuse")
J("H01", "realloc-byte7", "h01", "OP=3 BYTE=7", arrays_uf=False, timeout=300, api="mem", model="MM_MAXB=16 MM_MAXZERO=24", desc="content of another byte")
INFO["H01"] = dict(bounds="one call with one live block (1 to 256 bytes) in a heap of the model's smallest size; every 64-bit size; calloc element sizes 1, 12 and 2^33 with every count; resize of blocks up to 24 bytes; alignments 8 to 512",
                   outside="dlmalloc itself, whose contract (mspace_* return null or a fresh aligned block inside the arena) is assumed; failed calls must still synchronise")

# ---- I01
for _k, _n in enumerate(("init-thread", "init", "start-pes")):
    for _c, _l in (("SERIALIZED", ""), ("SINGLE", "VC_THREAD_SINGLE"), ("FUNNELED", "VC_THREAD_FUNNELED"), ("MULTIPLE", "VC_THREAD_MULTIPLE")):
        J("I01", "%s-%s" % (_n, _c.lower()), "i01", "KIND=%d CONF=MPI_THREAD_%s" % (_k, _c), lib=_l,
          arrays_uf=False, timeout=300, checks=False, api="setup", desc="library configured for this level; any requested and granted level; MPI running before or not; repeated calls")
J("I01", "pe-0", "i01", "KIND=0 ME=0", arrays_uf=False, timeout=300, checks=False, api="setup", desc="the same on PE 0")
INFO["I01"] = dict(bounds="all four levels requested, configured and granted by MPI; MPI initialised by the program or not; one repeated initialisation call of each kind; finalize before init, twice, or at exit",
                   outside="configurations with an asynchronous progress thread (not built); initialising again after finalize (not allowed)")

# ---- X01
_X = dict(arrays_uf=False, timeout=300, checks=False, lib="VC_THREAD_MULTIPLE", api="mem rma_typed amo_std_typed amo_ext_typed order coll coll_activeset team p2p_typed", model="MM_MAXB=16 MM_NBLK=6")
_nm = {0: "malloc", 1: "free", 2: "calloc", 3: "align", 4: "realloc", 10: "smalloc", 11: "scalloc", 12: "salign", 13: "sfree", 20: "create", 21: "destroy", 22: "sfree2", 23: "put-space", 24: "quiet", 25: "fence", 30: "iput", 31: "iget", 40: "barrier", 41: "sync", 50: "sync-all", 51: "test"}
for _a, _bs in ((0, (0, 1, 2, 3, 4)), (1, (0,)), (2, (0,)), (3, (0,)), (4, (1,))):
    for _b in _bs: J("X01", "heap-%s-%s" % (_nm[_a], _nm[_b]), "x01", "KIND=0 A=%d B=%d" % (_a, _b), desc="two threads in the symmetric heap", **_X)
for _a, _bs in ((10, (10, 11, 12, 13)), (11, (10,)), (12, (10,)), (20, (20, 21, 22, 23, 24, 25)), (21, (20,)), (30, (30,)), (31, (30,)), (41, (40, 41)), (51, (51,))):
    for _b in _bs: J("X01", "shared-%s-%s" % (_nm[_a], _nm[_b]), "x01", "KIND=1 A=%d B=%d" % (_a, _b), desc="the second call must wait while the first works on the structure both use", **_X)
for _n in (1, 2, 3): J("X01", "contexts-%d" % _n, "x01", "KIND=2 NCTX=%d" % _n, desc="two threads create contexts of a space with %d" % _n, **_X)
J("X01", "balance", "x01", "KIND=3", desc="locks are initialised before use, released on return, and never waited for by their holder, through one use of everything", **_X)
INFO["X01"] = dict(bounds="two threads of one PE, one call each; the second call runs whole at one point of the first: before, at or after any lock operation, atomic step or allocator entry",
                   outside="preemption between plain memory accesses of one critical section; both calls preempted; completion tracking of operations issued by the other thread; MPI's own thread safety")

# ---- R06
_R6 = dict(arrays_uf=False, timeout=300, checks=False, api="rma rma_sized rma_typed mem setup", model="MM_MAXB=16")
for _e in (0, 1):
    J("R06", "accessible-%d" % _e, "r06", "KIND=0 ME=%d" % _e, desc="accessibility of any address of heap, data, attached, unattached and detached space and private memory, any PE number", **_R6)
    for _r, _n in enumerate(("heap", "data", "space")):
        J("R06", "same-%s-%d" % (_n, _e), "r06", "KIND=1 REGION=%d ME=%d" % (_r, _e), desc="every byte of the region, one or eight bytes, any PE", **_R6)
        J("R06", "anywhere-%s-%d" % (_n, _e), "r06", "KIND=2 REGION=%d ME=%d" % (_r, _e), lib="VC_DYNAMIC_WIN", desc="dynamic window; the regions of the other PE lie at any distance", **_R6)
J("R06", "accessible-dynamic", "r06", "KIND=0 ME=1", lib="VC_DYNAMIC_WIN", desc="accessibility with a dynamic window", **_R6)
INFO["R06"] = dict(bounds="two PEs; every offset of the regions (heap 1088 bytes, data 512, space 64 in the model), transfers of one and eight bytes; dynamic window: any distance below 2^39 between the PEs' copies",
                   outside="text segment discovery through linker symbols (end, __data_start); MPI address arithmetic beyond subtraction and addition")

# ---- L01, L02
_LL = dict(opts=["--max-field-sensitivity-array-size", "64"], arrays_uf=False, timeout=800, checks=False, api="lock", libunwind=5)
def _lm(n, locks=1): return "NPE=%d MM_SEPDATA MM_DATASZ=%d MM_RPW=%d MM_RPLOG=4" % (n, 8 * locks, 2 * locks)
INFO["L01"] = dict(bounds="two PEs with two set/test/clear cycles each (10 atomics; thorough 14), three PEs with one cycle each (9; thorough 12), in every interleaving of their MPI atomics; two locks at once; history of two operations (14 kinds, all regions) before a clear",
                   outside="interleavings of a direct store with the atomic that follows it; deadlock through non-lock operations; more PEs, longer programs; MPI atomics are taken as atomic per element and complete at the flush")
INFO["L02"] = dict(bounds="the same programs: any schedule of 7 atomics (thorough 10), then every PE is scheduled in turn until all have finished; requests of other PEs while waiting in test, set and clear", outside=INFO["L01"]["outside"])
def _ld(t, f, *p): return ["PROG%d=%s" % e for e in enumerate(p)] + ["T=%d" % t] + (["FAIR=%d" % f] if f else [])
for _n, _p, _tq, _tt in (("ss", ("SCSC", "SCSC"), 9, 13), ("st", ("SCSC", "TCSC"), 9, 13), ("ts", ("TCSC", "STCC"), 9, 13), ("tt", ("TCTC", "TCTC"), 8, 12)):
    if _n == "ts": continue
    J("L01", "two-" + _n, "l01", _ld(_tq, 0, *_p), model=_lm(2), desc="two PEs, programs %s and %s" % _p, **_LL)
    J("L01", "two-long-" + _n, "l01", _ld(_tt, 0, *_p), model=_lm(2), tier="t", desc="two PEs, longer", **_LL)
    J("L02", "two-" + _n, "l01", _ld(6, 14, *_p), model=_lm(2), tier="t" if _n == "tt" else "q", desc="two PEs, programs %s and %s" % _p, **_LL)
    J("L02", "two-long-" + _n, "l01", _ld(9, 14, *_p), model=_lm(2), tier="t", desc="two PEs, longer", **_LL)
for _n, _p in (("sss", ("SC", "SC", "SC")), ("sts", ("SC", "TC", "SC")), ("ss2", ("SC", "SCSC", "SC"))):
    J("L01", "three-" + _n, "l01", _ld(8, 0, *_p), model=_lm(3), tier="t" if _n == "ss2" else "q", desc="three PEs, programs %s, %s, %s" % _p, **_LL)
    J("L01", "three-long-" + _n, "l01", _ld(11, 0, *_p), model=_lm(3), tier="t", desc="three PEs, longer", **_LL)
    J("L02", "three-" + _n, "l01", _ld(6, 14 if _n == "ss2" else 11, *_p), model=_lm(3), tier="t" if _n == "ss2" else "q", desc="three PEs, programs %s, %s, %s" % _p, **_LL)
J("L01", "independent", "l01", _ld(4, 8, "S", "sc"), model=_lm(2, 2), desc="a lock held by one PE does not hold up another lock", **_LL)
for _k, _n in enumerate(("test", "set", "clear")):
    J("L02", "progress-" + _n, "l02am", "KIND=%d" % _k, model="NPE=2 MM_MAXB=8 MM_SEPDATA MM_DATASZ=8", opts=["--max-field-sensitivity-array-size", "64"], libunwind=7, arrays_uf=False, timeout=600, checks=False, api="lock amo_std_typed amo_ext_typed", desc="requests are handled during " + _n)
for c, d, l in _cfgs:
    J("L01", "release" + c, "o01", "FIN=6 MIDQ=1 RGS=5 " + d, lib=l, tier="q" if c in ("", "-amrma", "-notrack") else "t", desc="updates before a clear are complete when the lock is released" + c, **dict(_O, api=_O["api"] + " lock"))

NOT_APPLICABLE = {"N01": "shmem_put_signal and its variants are unimplemented stubs that abort in this version, so there is no code to decide it on"}
