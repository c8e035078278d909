#!/usr/bin/env python3
"""python3 check.py <property id>: decides one property on /repo's current tree (VERIF_TIER, VERIF_SEED)."""
import json, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vbuild, checks
from vcheck_lib import Run, Violation, CheckError, VERIF

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    c = checks.CHECKS[prop]
    r = Run(prop, tier, seed)
    assume = checks.ASSUME + c.get("assume", [])
    try:
        c["run"](r)
        r.evidence("model_checking", 0, assume)
        for k in r.known: print(f"KNOWN-FINDING: property={prop} {k}")
        print(f"OK property={prop} walks={r.walks} events={r.events} states={r.dist}")
        return 0
    except Violation as v:
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        rp = f"{VERIF}/evidence/{prop}.replay.json"
        json.dump({"property": prop, "what": v.what, "detail": v.detail}, open(rp, "w"), indent=1)
        r.evidence("model_checking", 1, assume)
        print(v.what)
        print(json.dumps(v.detail)[:3000])
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    except (CheckError, vbuild.BuildError) as e:
        print("CHECK ERROR:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 3
    finally:
        r.done()

sys.exit(main())
