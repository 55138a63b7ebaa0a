#!/usr/bin/env python3
"""check.py Cxx : decides one property on /repo's current tree.

corpus of definitions and inputs -> harness built against /repo -> recorded executions -> TLC: every recorded execution
must be a behaviour of spec/NomDerive.tla; and the property itself is model-checked on the specification (spec/Props.tla).
exit 0: held; exit 1 + VIOLATION lines: broken; exit 2: the check could not be carried out."""
import json, os, random, sys, time, traceback
from collections import Counter
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import render

TIER = "thorough" if "thorough" in sys.argv[2:] else os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
# size of the families in the quick tier, chosen for about half a minute
QUICK_K = {"C01": 2, "C02": 1, "C03": 2, "C04": 1, "C05": 1, "C06": 2, "C07": 2, "C08": 1, "C09": 1, "C10": 4, "C11": 3, "C12": 3, "C13": 3, "C14": 3, "C15": 3, "C16": 2, "C18": 3}
THOROUGH_S = 600

class Result:
    def __init__(s, prop):
        s.prop, s.viol, s.samples, s.classes, s.extra = prop, [], [], Counter(), {}
        s.programs = s.cases = 0
    def violation(s, kind, detail):
        k = len(s.viol) + 1
        d = os.path.join(ROOT, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (s.prop, k))
        json.dump(dict({"property": s.prop, "kind": kind}, **detail), open(path, "w"), indent=1)
        s.viol.append(path)
        print("VIOLATION property=%s replay=%s" % (s.prop, path), flush=True)
        print("  " + kind + ": " + str(detail.get("summary", ""))[:600], flush=True)

MAXREP = 5
def size(p): return len(json.dumps(p["defs"]))
def round_(w, res, progs, rng, tag):
    import fam
    exes, bad = build_harness(w, progs, range(len(progs)))
    for ix in sorted(bad, key=lambda i: size(progs[i]))[:MAXREP]:
        res.violation("a well-formed definition no longer compiles", {"summary": bad[ix].split("\n")[0], "module": render.module(ix, progs[ix]), "message": bad[ix], "program": progs[ix]})
    cases = [c for c in fam.expand(progs, rng) if c["p"] not in bad]
    obs = run_cases(w, exes, cases)
    w.log("%d definitions, %d executions recorded" % (len(progs) - len(bad), len(obs)))
    wrong = conform(w, progs, cases, obs, tag)
    res.programs += len(progs) - len(bad); res.cases += len(obs)
    for k, o in obs.items(): res.classes[o["r"]] += 1
    for k in sorted(wrong, key=lambda k: (size(progs[cases[k]["p"]]), len(cases[k]["input"])))[:max(0, MAXREP - len(res.viol))]:
        c = cases[k]
        res.violation("the real code does not follow the specification", {"summary": "input %s entry %s args %s: real %s, specification %s" % (hexs(c["input"]), c["e"], c["args"],
            {f: obs[k][f] for f in ("r", "pos", "v", "n", "ch", "log", "dbg") if obs[k].get(f) not in ([], 0)}, wrong[k]), "module": render.module(c["p"], progs[c["p"]]), "case": c, "observed": obs[k], "specified": wrong[k], "program": progs[c["p"]]})
    if wrong: w.log("%d executions deviate" % len(wrong))
    ks = [k for k in obs if k not in wrong]
    for k in rng.sample(ks, min(4, len(ks))):
        if len(res.samples) < 12:
            c = cases[k]
            res.samples.append({"definition": render.module(c["p"], progs[c["p"]]).split("impl Obs")[0], "entry": c["e"], "args": c["args"], "input": hexs(c["input"]), "outcome": {f: obs[k][f] for f in ("r", "pos", "v", "n", "ch", "log")}})
    return [c for c in cases]

def generic(prop, w, res):
    import fam, props
    rnd_ = 0
    t_end = time.time() + (THOROUGH_S if TIER == "thorough" else 0)
    while True:
        rng = random.Random("%s-%d-%d" % (prop, SEED, rnd_))
        progs = fam.FAMILIES[prop](rng, QUICK_K[prop] if TIER == "quick" else QUICK_K[prop] + 1)
        cases = round_(w, res, progs, rng, "conform")
        props.check(prop, w, res, progs, cases, rng, TIER)
        rnd_ += 1
        if res.viol or time.time() > t_end: break
    res.extra["rounds"] = rnd_

def main():
    prop = sys.argv[1]
    w = Work(prop)
    res = Result(prop)
    try:
        if prop == "C17":
            import c17; c17.check(w, res, TIER, SEED)
        elif prop == "C19":
            import c19; c19.check(w, res, TIER, SEED)
        else: generic(prop, w, res)
    except CheckError as e:
        print("ERROR", e, flush=True); code = 2
    except Exception:
        traceback.print_exc(); code = 2
    else: code = 1 if res.viol else 0
    if res.viol: code = 1
    st = w.stats
    ev = {"property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "model_checking",
          "coverage": dict({"states": st.get("states", 0), "transitions": st.get("transitions", 0), "traces_validated_against_impl": st.get("validated", 0),
                            "definitions": res.programs, "corrupted_traces_rejected": st.get("rejected", 0), "outcomes": dict(res.classes), "model_checked_cases": st.get("mc_cases", 0), "samples": res.samples or ["none"]}, **res.extra),
          "assumptions": ["rustc, cargo and nom 8.0 behave as specified", "TLC evaluates the specification correctly", "the harness (harness/pre.rs, tools/render.py) renders definitions and records outcomes faithfully"],
          "wall_s": round(time.time() - w.t0, 1), "violations": len(res.viol)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    w.log("done: exit", code, st)
    import shutil; shutil.rmtree(w.dir, ignore_errors=True) if code == 0 else None
    sys.exit(code)
main()
