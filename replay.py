#!/opt/venv/bin/python
"""replay.py FILE: re-run a recorded counterexample on the real code"""
import sys, os, json
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
import importlib
from symex import run, registry
d = json.load(open(sys.argv[1]))
m = importlib.import_module(d["module"])
job = registry.Job(d["property"], getattr(m, d["function"]), d["params"], "quick", "", (), 100)
r = run.run_native(job, d["inputs"])
print(json.dumps(r, indent=1))
sys.exit(1 if r["outcome"] in ("violation", "exception") else 0)
