import sys, traceback; sys.dont_write_bytecode = True
sys.path.insert(0,'/verif'); sys.path.insert(0,'/repo')
from symex import registry, run
import symex.values
jobs=[j for j in registry.load_for(sys.argv[1]) if sys.argv[2] in j.name]
job=jobs[0]
def go():
    out=run.run_symbolic(job)
    return out
import symex.run as R
orig=R.where
def w(I):
    return orig(I)
import json
try:
    o=R.in_big_thread(go)
    o.pop('validate')
    print(json.dumps({k:v for k,v in o.items() if k!='stats'},indent=1,default=repr)[:6000]); s=o['stats']; s.pop('functions'); print(s)
except RuntimeError as e:
    print(str(e)[-6000:])
