"""Builds t8code (from /repo's working tree) and the harnesses, offline, without CMake.

Objects are cached by content: an object is reused only when its command line and the sha256 of the source and of
every header it included are unchanged, so file times play no role.
"""
import os, re, json, hashlib, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
MPI_INC = "/usr/lib/x86_64-linux-gnu/openmpi/include"

class BuildError(Exception):
    pass

_hash = {}
_hl = threading.Lock()
def fhash(p):
    with _hl:
        if p in _hash: return _hash[p]
    try:
        h = hashlib.sha256(open(p, "rb").read()).hexdigest()
    except OSError:
        h = "missing"
    with _hl: _hash[p] = h
    return h

def lib_sources():
    txt = open(f"{REPO}/src/CMakeLists.txt").read()
    m = re.search(r"^target_sources\( *T8 PRIVATE(.*?)^\)", txt, re.S | re.M)
    return [s for s in re.findall(r"\S+", re.sub(r"#.*", "", m.group(1))) if s.endswith((".c", ".cxx"))]

VARIANTS = {
    "dbg": ["-O1", "-g1", "-DT8_ENABLE_DEBUG=1"],
    "rel": ["-O2", "-g1"],
    "asan": ["-O1", "-g1", "-DT8_ENABLE_DEBUG=1", "-fsanitize=address", "-fno-omit-frame-pointer"],
}

def base_flags(variant):
    d = ["-DT8_CMAKE_BUILD", "-DT8_ENABLE_MPI=1", "-DT8_ENABLE_MPIIO=1", "-DOMPI_SKIP_MPICXX",
         '-DT8_CC="cc"', '-DT8_CFLAGS=""', '-DT8_CXX="c++"', '-DT8_CXXFLAGS=""', '-DT8_LDFLAGS=""', '-DT8_LIBS=""',
         '-DT8_PACKAGE_STRING="t8 4.0.0"', '-DT8_VERSION="4.0.0"', "-DT8_VERSION_MAJOR=4", "-DT8_VERSION_MINOR=0",
         "-DT8_VERSION_PATCH=0", "-DT8_VERSION_POINT=4.0.0", "-DT8_TEST_LEVEL_INT=0", "-DT8_VERIF=1"]
    return d + ["-w", f"-I{REPO}/src", f"-I{REPO}", f"-I{VERIF}/harness", "-isystem", MPI_INC,
                "-include", f"{VERIF}/shim/vshim.h"] + VARIANTS[variant]

def compile_one(src, obj, variant, extra=()):
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    cc = ["gcc", "-std=gnu11"] if src.endswith(".c") else ["g++", "-std=gnu++20"]
    cmd = cc + base_flags(variant) + list(extra) + ["-MD", "-MF", obj + ".d", "-c", src, "-o", obj]
    meta = obj + ".json"
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            m = json.load(open(meta))
            if m["cmd"] == cmd and all(fhash(p) == h for p, h in m["deps"].items()):
                return obj, m["key"]
        except Exception:
            pass
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError(f"compile failed: {src}\n{r.stderr[-4000:]}")
    deps = open(obj + ".d").read().replace("\\\n", " ").split(":", 1)[1].split()
    dh = {os.path.normpath(p): fhash(os.path.normpath(p)) for p in deps}
    key = hashlib.sha256(json.dumps([cmd, sorted(dh.items())]).encode()).hexdigest()
    json.dump({"cmd": cmd, "deps": dh, "key": key}, open(meta, "w"))
    return obj, key

def build(harnesses, variant="dbg"):
    """Builds the library and the named harnesses; returns {harness: path of the program}."""
    _hash.clear()
    out = f"{BUILD}/{variant}"
    os.makedirs(out, exist_ok=True)
    jobs = [(f"{VERIF}/harness/{h}.cxx", f"{out}/h/{h}.o") for h in harnesses]
    lib = [(f"{REPO}/src/{s}", f"{out}/t8/{s}.o") for s in lib_sources()] + [(f"{VERIF}/shim/vshim.c", f"{out}/vshim.o")]
    heavy = lambda j: -os.path.getsize(j[0]) if os.path.exists(j[0]) else 0
    res, err = {}, []
    with ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        futs = [(j, ex.submit(compile_one, j[0], j[1], variant)) for j in jobs + sorted(lib, key=heavy)]
        for j, f in futs:
            try: res[j[1]] = f.result()[1]
            except BuildError as e: err.append(str(e))
    if err: raise BuildError("\n".join(err))
    libobjs = [o for _, o in lib]
    progs = {}
    for h, (_, ho) in zip(harnesses, jobs):
        prog = f"{out}/{h}"
        key = hashlib.sha256(json.dumps([res[ho]] + [res[o] for o in libobjs]).encode()).hexdigest()
        kf = prog + ".key"
        if not (os.path.exists(prog) and os.path.exists(kf) and open(kf).read() == key):
            cmd = ["g++", "-o", prog, ho] + libobjs + [f for f in VARIANTS[variant] if f.startswith(("-fsan", "--cov"))] + \
                  ["-L/usr/lib/x86_64-linux-gnu/openmpi/lib", "-lp4est", "-lsc", "-lmpi", "-lz", "-lm"]
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode: raise BuildError("link failed: " + h + "\n" + r.stderr[-4000:])
            open(kf, "w").write(key)
        progs[h] = prog
    return progs

if __name__ == "__main__":
    v = os.environ.get("VARIANT", "dbg")
    try:
        print(build(sys.argv[1:], v))
    except BuildError as e:
        print(e); sys.exit(2)
