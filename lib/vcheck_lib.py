"""Runs the steps of one check and writes its evidence.

A step is one of
  ("model",  module, cfg)                      TLC model-checks a specification (no implementation involved)
  ("trace",  name, harness argv, module, cfg)  the real code is run, TLC decides whether the specification explains it
Exit codes of TLC: 0 explained; 10..13 an event is not explained (deadlock, invariant); 75..77 the trace holds values
for which the specification is not even defined.  Everything else is an error of the machinery.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import vbuild

TLA = "/opt/veriftools/tla"
REJECT = (10, 11, 12, 13, 75, 76, 77)

class CheckError(Exception):
    pass

class Violation(Exception):
    def __init__(self, what, detail): self.what, self.detail = what, detail

MPIENV = {"OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1", "OMPI_MCA_btl": "self,vader",
          "OMPI_MCA_btl_vader_single_copy_mechanism": "none", "OMPI_MCA_rmaps_base_oversubscribe": "1",
          "OMPI_MCA_mpi_yield_when_idle": "1", "OMPI_MCA_plm": "isolated", "OMPI_MCA_orte_tmpdir_base": "",
          "OMPI_MCA_hwloc_base_binding_policy": "none",
          "MALLOC_PERTURB_": "165"}      # freed and fresh memory holds garbage

def tlc(module, cfg, scratch, env=None, workers=8, timeout=600, extra=(), heap="6g"):
    md = tempfile.mkdtemp(prefix="mc_", dir=scratch)
    e = dict(os.environ); e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", "-cp",
           f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar", "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE",
           "-metadir", md, "-config", cfg] + list(extra) + [module]
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=os.path.join(VERIF, "spec"), env=e, capture_output=True, text=True, timeout=timeout)
        rc, out = r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired as x:
        raise CheckError(f"TLC timed out after {timeout} s on {module}")
    finally:
        shutil.rmtree(md, ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return rc, out, gen, dist, time.time() - t

def rejected_event(out, trace):
    """The walk and position of the event that was not explained, if TLC's error trace shows them."""
    w = re.findall(r"/\\ w = (\d+)", out); i = re.findall(r"/\\ i = (\d+)", out)
    info = {}
    if w and i:
        w, i = int(w[-1]), int(i[-1])
        info = {"walk": w, "event": i}
        try:
            with open(trace) as f:
                for n, line in enumerate(f, 1):
                    if n == w:
                        o = json.loads(line)
                        info["header"] = {k: v for k, v in o.items() if k != "ev"}
                        info["rejected"] = o["ev"][i - 1] if i <= len(o.get("ev", [])) else None
                        info["history"] = o["ev"][max(0, i - 6):i - 1]
                        break
        except Exception as e:
            info["note"] = repr(e)
    return info

def run_harness(prog, argv, trace, np, env, timeout):
    e = dict(os.environ); e.update(MPIENV); e.update(env)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0"
    tmp = os.path.dirname(trace)
    e["TMPDIR"] = tmp; e["OMPI_MCA_orte_tmpdir_base"] = tmp
    cmd = [prog] + argv + [trace]
    if np > 1: cmd = ["mpirun", "--oversubscribe", "-np", str(np)] + cmd
    if os.path.exists(trace): os.remove(trace)
    p = subprocess.Popen(cmd, cwd=tmp, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out, cmd
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except OSError: pass
        p.kill(); p.communicate()
        return "hang", "", cmd

class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f"verif_{prop}_", dir=os.environ.get("TMPDIR", "/tmp"))
        self.gen = self.dist = self.walks = self.events = 0
        self.steps, self.samples, self.known = [], [], []

    def model(self, module, cfg, timeout=300, extra=(), workers=8):
        rc, out, gen, dist, s = tlc(module + ".tla", cfg, self.scratch, workers=workers, timeout=timeout, extra=extra)
        if rc != 0: raise CheckError(f"model {module}/{cfg} failed (rc {rc})\n{out[-3000:]}")
        self.gen += gen; self.dist += dist
        self.steps.append({"kind": "model", "module": module, "cfg": cfg, "states": dist, "transitions": gen, "s": round(s, 1)})

    def harness(self, name, prog, argv, np=1, env=None, timeout=150):
        env = {k: str(v) for k, v in (env or {}).items()}
        env["VERIF_SEED"] = str(self.seed)
        tr = os.path.join(self.scratch, f"{name}.ndjson")
        for attempt in (1, 2):          # a crash counts only when it is repeated
            rc, out, cmd = run_harness(prog, argv, tr, np, env, timeout)
            if rc == 0: return tr, cmd, env
        what = "the real code hung" if rc == "hang" else f"the real code ended abnormally (rc {rc})"
        if rc == 99: raise CheckError(f"harness {name}: {out[-2000:]}")
        raise Violation(what, {"step": name, "cmd": cmd, "env": env, "output": out[-6000:]})

    def trace(self, name, prog, argv, module, cfg, np=1, env=None, timeout=150, tlc_timeout=400, workers=8):
        tr, cmd, env = self.harness(name, prog, argv, np, env, timeout)
        nw = ne = 0
        with open(tr) as f:
            for line in f:
                nw += 1
                o = json.loads(line)
                ne += len(o.get("ev", []))
                if nw == 1 and o.get("ev"):
                    self.samples.append({"step": name, "header": {k: v for k, v in o.items() if k != "ev"},
                                         "first_event": json.dumps(o["ev"][0])[:600]})
        if nw == 0 or ne == 0: raise CheckError(f"harness {name} produced no events")
        rc, out, gen, dist, s = tlc(module + ".tla", cfg, self.scratch, env={"TRACE": tr}, timeout=tlc_timeout, workers=workers)
        if rc in REJECT:
            info = rejected_event(out, tr)
            info.update({"step": name, "cmd": cmd, "env": env, "tlc_rc": rc,
                         "tlc": out[:1500] if len(out) < 1500 else out[:1200] + " ... " + out[-600:]})
            raise Violation("the specification does not explain what the real code did", info)
        if rc != 0: raise CheckError(f"TLC failed on {module} (rc {rc})\n{out[-3000:]}")
        self.gen += gen; self.dist += dist; self.walks += nw; self.events += ne
        self.steps.append({"kind": "trace", "name": name, "module": module, "np": np, "walks": nw, "events": ne, "states": dist,
                           "s": round(s, 1)})

    def evidence(self, level, violations, assumptions):
        cov = {"states": self.dist, "transitions": self.gen, "traces_validated_against_impl": self.walks,
               "events_validated": self.events, "steps": self.steps, "samples": self.samples[:6] or ["(none: the run ended before the first trace)"]}
        if self.known: cov["known_findings"] = self.known
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
                   "assumptions": assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": violations},
                  open(f"{VERIF}/evidence/{self.prop}.json", "w"), indent=1)

    def done(self):
        shutil.rmtree(self.scratch, ignore_errors=True)
