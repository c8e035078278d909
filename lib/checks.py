"""What each property's check runs."""
import vbuild
ASSUME = ["TLC 1.8.0, the C++ compiler, Open MPI and libsc/p4est behave as documented",
          "the harness reports what the public interface of t8code returned"]
CHECKS = {}
def check(pid, **kw):
    def deco(f):
        CHECKS[pid] = dict(run=f, **kw)
        return f
    return deco

def scheme(r, *groups):
    variant = "rel"
    prog = vbuild.build(["h_scheme"], variant)["h_scheme"]
    big = r.tier == "thorough"
    env = {"VH_DEEP": 500 if big else 120, "VH_EXH": 5000 if big else 1000}
    for g in groups:
        r.trace("scheme_" + g, prog, [g], "T8SchemeTrace", "T8SchemeTrace.cfg", env=env, tlc_timeout=3000 if big else 400)

@check("C01")
def c01(r):
    r.model("T8TablesCheck", "T8TablesCheck.cfg")
    r.model("T8Cursor", "MCCursor.cfg")
    scheme(r, "R", "C")
@check("C02")
def c02(r): scheme(r, "S")
@check("C03")
def c03(r): scheme(r, "N")
@check("C04")
def c04(r): scheme(r, "F")
@check("C05")
def c05(r): scheme(r, "B", "T")
@check("C06")
def c06(r): scheme(r, "G")
@check("C07")
def c07(r): scheme(r, "K")

# ------------------------------------------------------------------- forests
SMALL = "1,2,3,2"
WIDE = "1,4,5"
def forest(r, modes, n=24, wide=12, alone=6, extra=(), deep=0):
    """modes: which operations and observations; every run starts several independent groups of processes."""
    prog = vbuild.build(["h_forest"], "rel")["h_forest"]
    big = r.tier == "thorough"
    def one(name, mode, groups, n, **env):
        r.trace(name, prog, [mode], "T8ForestTrace", "T8ForestTrace.cfg", np=sum(map(int, groups.split(","))),
                env=dict(VH_GROUPS=groups, VH_N=n, **env), timeout=600 if big else 200, tlc_timeout=3000 if big else 400)
    for m in modes:
        k = 12 if big else 3
        if n: one(f"{m}_small", m, SMALL, n * k)
        if wide: one(f"{m}_wide", m, WIDE, wide * k)
        if alone: one(f"{m}_standalone", m, SMALL, alone * k, VH_STANDALONE=1)
        if big: one(f"{m}_six", m, "6,5", n * 4)
    for name, mode, groups, n, env in extra:
        one(name, mode, groups, n * (8 if big else 2), **env)
    if deep:        # a few leaves of any level, up to the finest
        for m in modes:
            one(f"{m}_deep", m, "1,3", deep * (8 if big else 1), VH_SPINE=30)
            if big: one(f"{m}_deep_wide", m, WIDE, deep * 4, VH_SPINE=30)

@check("C10")
def c10(r): forest(r, ["U"], n=30, wide=16)
@check("C11")
def c11(r):
    r.model("MCForest", "MCForest.cfg", timeout=600)
    if r.tier == "thorough": r.model("MCForest", "MCForestDeep.cfg", timeout=6000)
    forest(r, ["A", "AEH"], n=24, wide=8, deep=24)
@check("C12")
def c12(r): forest(r, ["R", "ARZ"], n=20, wide=8, deep=24)
@check("C13")
def c13(r): forest(r, ["PAWO"], n=40, wide=20, extra=[("many", "PAWO", "7,8", 16, {})], deep=24)
@check("C14")
def c14(r):     # families of ten on up to ten processes as well
    forest(r, ["PAF", "PFAWO"], n=24, wide=12,
           extra=[("pyramids_on_ten", "PFO", "10", 24, {"VH_CLASSES": "7"}), ("many", "PFAWO", "7,8", 12, {})], deep=20)
@check("C15")
def c15(r): forest(r, ["PADT", "PAOD"], n=30, wide=16, extra=[("many", "PAWOD", "7,8", 12, {})], deep=20)
@check("C16")
def c16(r):
    r.model("MCBalance", "MCBalance.cfg", timeout=600)
    if r.tier == "thorough": r.model("MCBalance", "MCBalanceDeep.cfg", timeout=6000)
    forest(r, ["LA"], n=30, wide=16, deep=16)
@check("C17")
def c17(r): forest(r, ["APG", "PLG"], n=20, wide=10, deep=10)
@check("C18")
def c18(r): forest(r, ["APX"], n=24, wide=16, deep=12)
@check("C19")
def c19(r): forest(r, ["APN"], n=12, wide=6, alone=4, deep=6)
@check("C20")
def c20(r): forest(r, ["APQ"], n=12, wide=6, alone=4, deep=10)
@check("C21")
def c21(r): forest(r, ["APSI"], n=16, wide=10, deep=12)
@check("C22")
def c22(r): forest(r, ["AEH", "AE"], n=20, wide=10, deep=16)
@check("C23")
def c23(r): forest(r, ["CAPM", "LAPM"], n=20, wide=10, deep=10)
@check("C24")
def c24(r): forest(r, ["APLMCVGXDHZ"], n=20, wide=10, deep=10)

@check("C40")
def c40(r): forest(r, ["YV"], n=24, wide=8, alone=4)
@check("C41")
def c41(r): forest(r, [], extra=[("faces", "YV", SMALL, 28, dict(VH_FACES=1)), ("faces_wide", "Y", WIDE, 8, dict(VH_FACES=1))])

# ------------------------------------------------------------------ coarse meshes
def cmesh(r, runs):
    prog = vbuild.build(["h_cmesh"], "rel")["h_cmesh"]
    big = r.tier == "thorough"
    for name, mode, groups, n, env in runs:
        r.trace(name, prog, [mode], "T8CmeshTrace", "T8CmeshTrace.cfg", np=sum(map(int, groups.split(","))),
                env=dict(VH_GROUPS=groups, VH_N=n * (12 if big else 2), **env), timeout=600 if big else 200, tlc_timeout=3000 if big else 400)
@check("C30")
def c30(r):
    r.model("MCOffset", "MCOffset.cfg")
    cmesh(r, [("tables", "T", "1", 150, {})])
@check("C31")
def c31(r): cmesh(r, [("replicated", "N", "1,2", 150, {}), ("partitioned", "NRO", "1,2,3,5", 150, {}), ("repeated", "NROD", "1,2,4", 150, {}),
                      ("geometry", "NROG", "1,2,4", 150, {})])
@check("C32")
def c32(r): cmesh(r, [("tables", "NROP", "1,2,3,5", 150, {}), ("all", "NROPHZMUC", "1,2,3,5", 150, {}), ("geometry", "NROGPHZMU", "2,3,4", 120, {}),
                      ("many", "NROPHZMU", "7,8", 80, {})])
@check("C33")
def c33(r): cmesh(r, [("copy", "NROPC", "1,2,3,5", 150, {}), ("bcast", "BPC", "1,2,3,5", 150, {}), ("equal", "NRE", "1,2,3", 250, {}), ("geometry", "NROGCE", "1,2,3", 150, {})])
@check("C34")
def c34(r): cmesh(r, [("bounds", "NRQ", "1,2,3,5", 250, {}), ("uniform", "NRPUQ", "4,7,9", 150, {}), ("pyramids", "NUQ", "2,3,6", 150, {"VH_CLASSES": "7"}),
                      ("fine", "K", "1,2,4,8", 200, {}), ("fine_odd", "K", "3,5,7", 200, {})])

# ------------------------------------------------------------------ meshes given by vertices or files
def glue(r, runs):
    prog = vbuild.build(["h_glue"], "rel")["h_glue"]
    big = r.tier == "thorough"
    for name, mode, groups, n, env in runs:
        r.trace(name, prog, [mode], "T8GlueTrace", "T8GlueTrace.cfg", np=sum(map(int, groups.split(","))),
                env=dict(VH_GROUPS=groups, VH_N=n * (12 if big else 2), **env), timeout=600 if big else 200, tlc_timeout=3000 if big else 400)
@check("C35")
def c35(r): glue(r, [("join", "J", "1", 500, {})])
@check("C36")
def c36(r): glue(r, [("files", "F", "1,2", 200, {})])
@check("C37")
def c37(r): glue(r, [("malformed", "X", "1,2", 200, {})])
@check("C38")
def c38(r): glue(r, [("vertices", "V", "1,2", 150, {})])
@check("C39")
def c39(r): glue(r, [("generators", "E", "1,1,2,3", 280, {})])

# ------------------------------------------------------------------ geometry
def geom(r, runs):
    prog = vbuild.build(["h_geom"], "rel")["h_geom"]
    big = r.tier == "thorough"
    for name, mode, groups, n, env in runs:
        r.trace(name, prog, [mode], "T8GeomTrace", "T8GeomTrace.cfg", np=sum(map(int, groups.split(","))),
                env=dict(VH_GROUPS=groups, VH_N=n * (15 if big else 2), **env), timeout=600 if big else 200, tlc_timeout=3000 if big else 400)
@check("C42")
def c42(r): geom(r, [("coordinates", "c", "1,2,3", 250, dict(VH_STANDALONE=1))])
@check("C43")
def c43(r): geom(r, [("measures", "m", "1,2,3", 300, dict(VH_STANDALONE=1))])
@check("C44")
def c44(r): geom(r, [("inside", "i", "1,2,3", 400, dict(VH_STANDALONE=1))])
def data(r, runs, module="T8DataTrace"):
    prog = vbuild.build(["h_data"], "dbg")["h_data"]
    big = r.tier == "thorough"
    for name, mode, groups, n, env in runs:
        r.trace(name, prog, [mode], module, module + ".cfg", np=sum(map(int, groups.split(","))),
                env=dict(VH_GROUPS=groups, VH_N=n * (15 if big else 2), **env), timeout=600 if big else 200, tlc_timeout=3000 if big else 400)
@check("C46")
def c46(r): data(r, [("element arrays", "a", "1,1", 400, dict(VH_STEPS=40)), ("shared memory", "s", "1,2,4", 200, dict(VH_STEPS=30)), ("messages", "m", "1,2,4", 100, dict(VH_STEPS=30))])
@check("C47")
def c47(r): data(r, [("helpers", "x", "1,1", 300, dict(VH_STEPS=60))])
@check("C48")
def c48(r): data(r, [("shapes", "e", "1,1", 300, dict(VH_STEPS=40))], "T8ShapeTrace")
@check("C45")
def c45(r): geom(r, [("files", "v", "1,2,3", 250, dict(VH_STANDALONE=1))])
