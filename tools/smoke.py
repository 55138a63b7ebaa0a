import sys, random, json
sys.path.insert(0, '/verif/tools')
from vlib import *; from rand import *
n=int(sys.argv[1]); seed=int(sys.argv[2]); k=int(sys.argv[3])
rng=random.Random(seed)
w=Work("smoke")
progs=random_programs(rng,n)
w.log("gen")
exes,bad=build_harness(w,progs,range(n))
w.log("built", len(bad))
for b in list(bad)[:6]:
    print(render.module(b,progs[b])); print(bad[b])
cases=[]
for i,p in enumerate(progs):
    if i not in bad: cases+=cases_for(p,rng,i,k)
obs=run_cases(w,exes,cases)
from collections import Counter
w.log("ran",len(cases),Counter(o["r"] for o in obs.values()))
r=conform(w,progs,cases,obs)
w.log("conform", len(r), w.stats)
for c in list(r)[:8]:
    print(render.module(cases[c]["p"],progs[cases[c]["p"]])); print(cases[c]); print("OBS",obs[c]); print("SPEC",r[c])
print(Counter(cases[c]["p"] for c in r))
