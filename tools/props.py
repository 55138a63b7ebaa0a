"""Model checking of the property itself on the specification (spec/Props.tla), over a sample of the corpus that is replayed."""
import json, re, time
from vlib import *

HOLDS = re.compile(r'^<<"HOLDS", (\d+)>>$')
N = {"quick": 600, "thorough": 4000}

def features(p):
    """what a program uses: attributes, type kinds (t:), operators (op:), parsers (p:), statements (s:);
    many0 / optty: a Vec / Option type read by its own parser"""
    s = set()
    def walk(x):
        if isinstance(x, dict):
            if isinstance(x.get("a"), str): s.add(x["a"])
            if isinstance(x.get("k"), str): s.add("t:" + x["k"])
            if isinstance(x.get("op"), str): s.add("op:" + x["op"])
            if isinstance(x.get("p"), str): s.add("p:" + x["p"])
            if isinstance(x.get("s"), str): s.add("s:" + x["s"])
            if x.get("p") == "ty": own(x["t"])
            for v in x.values(): walk(v)
        elif isinstance(x, list):
            for v in x: walk(v)
    def own(t):
        if t["k"] == "vec": s.add("many0")
        if t["k"] == "opt": s.add("optty")
        for f in ("t", "a", "b"):
            if isinstance(t.get(f), dict): own(t[f])
    def field(f):
        t = f["t"]
        for a in f["attrs"]:
            if a["a"] in ("Tag", "Take", "Value", "Parse", "Ignore"): return
            if a["a"] in ("Map", "Into"): break
            if a["a"] in ("Cond", "Count", "LengthCount"): t = t["t"]
        own(t)
    walk(p["defs"])
    for d in p["defs"].values():
        if d["kind"] == "type": own(d["t"])
        for f in d["fields"]: field(f)
        for v in d.get("variants", []):
            for f in v.get("fields", []): field(f)
    return sorted(s)

def recursive(p):
    """the main definition is used by itself"""
    seen, todo = set(), [p["main"]]
    while todo:
        t = json.dumps(p["defs"][todo.pop()])
        for n in p["defs"]:
            if '"d": "%s"' % n in t and n not in seen: seen.add(n); todo.append(n)
    return p["main"] in seen

def check(prop, w, res, progs, cases, rng, tier, limit=None):
    n = limit or N[tier]
    seen, pick = set(), []
    order = list(range(len(cases))); rng.shuffle(order)
    for k in order:                       # every definition first, then more inputs
        if cases[k]["p"] not in seen: seen.add(cases[k]["p"]); pick.append(k)
    chosen = set(pick)
    pick += [k for k in order if k not in chosen]
    if prop in ("C01", "C12"): pick = [k for k in pick if len(cases[k]["input"]) <= 60]     # the property re-runs each parse many times
    pick = pick[:n]
    # the variations of a definition also change the calls it makes to itself: not comparable
    if prop not in ("C16", "C18", "C04", "C03"): pick = [k for k in pick if not recursive(progs[cases[k]["p"]])]
    pick = [k for k in pick if len(cases[k]["input"]) < 20000]
    if prop == "C04": pick = [k for k in pick if len(cases[k]["input"]) <= 24]
    used = sorted({cases[k]["p"] for k in pick}); ren = {p: j + 1 for j, p in enumerate(used)}
    corpus = {"progs": [dict(q, feats=features(progs[u])) for q, u in zip(spec_progs([progs[u] for u in used]), used)],
              "cases": [{"p": ren[cases[k]["p"]], "e": cases[k]["e"], "args": cases[k]["args"], "input": cases[k]["input"]} for k in pick]}
    cf = w.path("props-corpus.json")
    json.dump(corpus, open(cf, "w"))
    t = time.time()
    rc, out = tlc(w, "Props", "Props.cfg", {"CORPUS": cf, "PROP": prop}, tag="props")
    held = {int(g.group(1)) for g in (HOLDS.match(l) for l in out.splitlines()) if g}
    st = STATES.findall(out)
    if rc != 0 or (prop != "C04" and len(held) != len(pick)):
        bad = re.search(r'(?:for case|"STEP", "C\d+"), (\d+)', out.replace('",', '",'))
        g = re.search(r'<<"(?:PROPERTY|STEP|no end)".*', out)
        k = None
        if g:
            m = re.findall(r"\d+", g.group(0).replace(prop, ""))
            k = int(m[0]) if m else None
        raise CheckError("the specification does not have property %s (rc %d): %s\n%s\n%s" % (prop, rc, g.group(0) if g else "",
            json.dumps(dict(corpus["cases"][k - 1], defs=corpus["progs"][corpus["cases"][k - 1]["p"] - 1])) [:3000] if k else "", out[out.find("Error:"):][:2500] if "Error:" in out else out[-2000:]))
    a, b = (int(x.replace(",", "")) for x in st[-1]) if st else (0, 0)
    w.stats["transitions"] = w.stats.get("transitions", 0) + a
    w.stats["states"] = w.stats.get("states", 0) + b
    w.stats["mc_cases"] = w.stats.get("mc_cases", 0) + len(pick)
    w.log("property checked on the specification: %d cases, %d states (%.1f s)" % (len(pick), b, time.time() - t))
