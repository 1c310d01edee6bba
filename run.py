#!/usr/bin/env python3
"""run.py Cxx            run the check of one property (tier from VERIF_TIER)
   run.py --replay F     re-run the job recorded in a replay file"""
import importlib, json, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
a = sys.argv[1:]
only = None
if a and a[0] == "--replay":
    d = json.load(open(a[1]))
    os.environ["VERIF_TIER"] = d["tier"]
    a = [d["property"]]
    only = (d.get("build", ""), d["job"]) if "job" in d else None
import core, checks  # noqa: E402
pid = a[0]
try:
    c = core.Check(pid)
    c.only = only
    checks.CHECKS[pid](c)
except core.BuildError as e:
    print(f"{pid}: ERROR (no verdict): {e}")
    sys.exit(2)
except Exception:
    traceback.print_exc()
    sys.exit(2)
