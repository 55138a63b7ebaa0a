import sys, random, json
sys.path.insert(0, '/verif/tools')
from vlib import *; import fam; from fam import *
from collections import Counter
for prop in sys.argv[2:]:
    rng=random.Random("%s-%s"%(prop,sys.argv[1])); w=Work("smokef")
    progs=FAMILIES[prop](rng,1)
    w.log(prop, "programs", len(progs))
    exes,bad=build_harness(w,progs,range(len(progs)))
    for b in list(bad)[:12]:
        print(b, progs[b].get("_ctx"), bad[b].split("\n")[0]); 
        print("   ", "\n    ".join(l for l in bad[b].split("\n") if "|" in l)[:500])
    cases=[c for c in expand(progs,rng) if c["p"] not in bad]
    w.log("built, bad", len(bad), "cases", len(cases))
    obs=run_cases(w,exes,cases)
    w.log("ran",Counter(o["r"] for o in obs.values()))
    r=conform(w,progs,cases,obs)
    w.log("conform BAD", len(r), w.stats)
    for c in list(r)[:4]:
        print(render.module(cases[c]["p"],progs[cases[c]["p"]])); print(cases[c]); print("OBS",obs[c]); print("SPEC",r[c])
    print(Counter(cases[c]["p"] for c in r))
