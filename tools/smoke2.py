import sys, random
sys.path.insert(0, '/verif/tools')
from vlib import *; from rand import *
rng=random.Random(int(sys.argv[2])); w=Work("smoke2")
progs=random_programs(rng,int(sys.argv[1]))
exes,bad=build_harness(w,progs,range(len(progs)))
for b in bad:
    print(b, bad[b].split("\n")[0]); 
    print("   ", "\n    ".join(l for l in bad[b].split("\n") if "|" in l)[:400])
