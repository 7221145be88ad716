import sys; sys.dont_write_bytecode = True
import sys, cProfile, pstats
sys.path.insert(0,'/verif'); sys.path.insert(0,'/repo')
from symex import registry, run
job=[j for j in registry.load_for(sys.argv[1]) if sys.argv[2] in j.name][0]
import symex.run as R
pr=cProfile.Profile()
def go():
    pr.enable(); o=run.run_symbolic(job); pr.disable(); return o
o=R.in_big_thread(go)
print(o['status'], {k:v for k,v in o['stats'].items() if k!='functions'})
pstats.Stats(pr).sort_stats('tottime').print_stats(18)
