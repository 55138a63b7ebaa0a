"""C19: the feature configurations agree.

One corpus, three builds of the crate and of the code derived with it: std, alloc without std, neither.  Every recorded
execution of each build must follow the specification of that configuration (spec/NomDerive.tla, machine field cfg), and
executions of the same case in two builds must agree.  The same definitions are also compiled in #![no_std] crates, where
std is not in scope at all."""
import copy, json, os, random, re, shutil
from vlib import *
import render, props
from gen import NUMS

CONFIGS = (("std", None, True), ("alloc", ["alloc"], False), ("core", None, False))

def kinds(x, s=None):
    s = set() if s is None else s
    if isinstance(x, dict):
        if isinstance(x.get("k"), str): s.add(x["k"])
        if isinstance(x.get("a"), str): s.add("@" + x["a"])
        for v in x.values(): kinds(v, s)
    elif isinstance(x, list):
        for v in x: kinds(v, s)
    return s
def arrays(x):
    if isinstance(x, dict):
        if x.get("k") == "arr" and "t" in x: yield x
        for v in x.values(): yield from arrays(v)
    elif isinstance(x, list):
        for v in x: yield from arrays(v)
def copyable(t):
    return "gp" not in t and (t["k"] in NUMS or (t["k"] in ("opt", "arr") and copyable(t["t"])) or (t["k"] == "tup" and copyable(t["a"]) and copyable(t["b"])))
def available(p, cfg):
    if cfg == "std": return True
    ks = kinds(p["defs"])
    if "@Debug" in ks or p.get("extra"): return False           # dbg_dmp is only in std
    if cfg == "alloc": return True
    if ks & {"vec", "str", "@Count", "@LengthCount"}: return False
    if '"c": "tovec"' in json.dumps(p["defs"]) or '"c": "vsum"' in json.dumps(p["defs"]): return False
    if '"gen"' in json.dumps(p["defs"]) and "arr" in ks: return False
    return all(a["n"] <= 32 and copyable(a["t"]) for a in arrays(p["defs"]))      # items must be Default + Copy

PRE = open(os.path.join(ROOT, "harness", "pre.rs")).read()
# what the definitions of a crate without std cannot use: the helpers of the harness, and helpers::LengthData (not imported)
HARNESS = re.compile(r"\b(LengthData|%s)\b" % "|".join(sorted(re.findall(r"^pub (?:fn|struct|enum|trait|type) (\w+)", PRE, re.M))))
def nostd(w, res, progs, cfg, target):
    """the definitions alone, in a crate without std"""
    d = write_crate(w, "nostd_" + cfg, ["alloc"] if cfg == "alloc" else None, False)
    toml = open(os.path.join(d, "Cargo.toml")).read()
    shutil.rmtree(os.path.join(d, "src", "bin"))
    items = {}
    for ix, p in enumerate(progs):
        if not available(p, cfg): continue
        s = "pub mod p%d {\nuse nom_derive::*; #[allow(unused_imports)] use core::marker::PhantomData; #[allow(unused_imports)] use nom::number::Endianness;\n" % ix
        if cfg == "alloc": s += "use alloc::{boxed::Box, vec::Vec, string::String};\n"
        body = "".join(render.definition(n, p["defs"][n], p["defs"]) for n in sorted(p["defs"]))
        body = re.sub(r"^impl.* (Obs|FromFlat) for .*$", "", body, flags=re.M).replace(": Obs + ", ": ")
        if HARNESS.search(body) or (cfg == "core" and re.search(r"\b(Vec|String|Box)\b", body)): continue
        items[ix] = s + body + "}\n"
    bad, alive = {}, sorted(items)
    for attempt in range(4):
        src = "#![no_std]\n#![allow(warnings)]\n#[macro_export] macro_rules! ident { ($($t:tt)*) => { $($t)* } }\n" + ("extern crate alloc;\n" if cfg == "alloc" else "")
        where = {}
        for ix in alive:
            a = src.count("\n") + 1
            src += items[ix]
            for ln in range(a, src.count("\n") + 1): where[("src/lib.rs", ln)] = ix
        open(os.path.join(d, "src", "lib.rs"), "w").write(src)
        rc, msgs, err = cargo(w, d, ["check", "--lib"], target=target)
        if rc == 0: break
        new = {}
        for m in msgs:
            if m.get("reason") != "compiler-message" or not m["message"]["level"].startswith("error"): continue
            if "nostd" not in m.get("package_id", ""): raise CheckError("/repo does not build (%s):\n%s" % (cfg, (m["message"].get("rendered") or "")[:3000]))
            for loc in err_locs(m["message"]):
                if loc in where: new.setdefault(where[loc], (m["message"].get("rendered") or "")[:1500]); break
        if not new: raise CheckError("no_std crate does not build (%s):\n%s" % (cfg, err[-3000:]))
        bad.update(new); alive = [x for x in alive if x not in new]
        if not alive: break
    for ix in sorted(bad, key=lambda i: len(items[i]))[:3]:
        res.violation("a definition does not compile without std", {"summary": cfg + ": " + bad[ix].split("\n")[0], "module": items[ix], "message": bad[ix], "configuration": cfg})
    w.log("no_std %s: %d definitions, %d do not compile" % (cfg, len(items), len(bad)))
    return len(items)

def corpus(rng, k):
    import fam
    progs = []
    for f in sorted(fam.FAMILIES):
        ps = fam.FAMILIES[f](random.Random(rng.random()), 1)
        core = [p for p in ps if available(p, "core")]
        rest = [p for p in ps if not available(p, "core") and available(p, "alloc")]
        progs += rng.sample(core, min(len(core), 45 * k)) + rng.sample(rest, min(len(rest), 25 * k))
    # array of every copyable type and size: the implementation depends on the configuration
    from gen import W, T, arr, opt, typ, struct, prog, F, U8, U16, tup
    for t in NUMS:
        for n in (0, 1, 2, 3, 8) + ((rng.choice([4, 5, 6, 7, 9, 12]), rng.choice([16, 17, 20, 24]), rng.choice([25, 31, 32, 33, 40, 64, 65])) if rng.random() < 0.6 or t == "u8" else ()):
            progs.append(prog({"S": typ(arr(T(t), n))}, "S", _n=5 if n < 9 else 1, _prefix=1, _all=True, _inputs=[[(3 + 7 * j) % 251 for j in range(n * W[t] + x)] for x in (0, -1, 2) if n * W[t] + x >= 0] if n > 3 else []))
    for t in (opt(U16), opt(U8), arr(U16, 2), arr(opt(U8), 2), opt(arr(U8, 2)), opt(opt(U16))):
        for n in (1, 2, 3, rng.choice([4, 5, 8, 9, 16, 17])):
            progs.append(prog({"S": typ(arr(t, n))}, "S", _n=6, _prefix=1, _all=True))
            progs.append(prog(struct([F("h", U8), F("v", arr(t, n)), F("z", U8)]), _n=6, _prefix=1))
            progs.append(prog({"S": typ(opt(arr(t, n)))}, "S", _n=6, _prefix=1, _all=True))
            progs.append(prog({"S": typ(tup(arr(t, n), U8))}, "S", _n=6, _prefix=1, _all=True))
    return progs

MAXREP = 4
def check(w, res, tier, seed):
    import fam, time
    end = time.time() + (600 if tier == "thorough" else 0)
    rnd = 0
    while True:
        rng = random.Random("C19-%d-%d" % (seed, rnd))
        progs = corpus(rng, 2 if tier == "thorough" else 1)
        cases = fam.expand(progs, rng)
        outs = {}
        for cfg, feats, deff in CONFIGS:
            idx = [i for i, p in enumerate(progs) if available(p, cfg)]
            target = os.path.join(ROOT, ".work", "target-" + cfg) if cfg != "std" else w.target
            exes, bad = build_harness(w, progs, idx, sub="crate_" + cfg, features=feats, default_features=deff, target=target)
            for ix in sorted(bad, key=lambda i: len(json.dumps(progs[i]["defs"])))[:MAXREP]:
                res.violation("a definition does not compile in a configuration it is available in", {"summary": cfg + ": " + bad[ix].split("\n")[0], "module": render.module(ix, progs[ix]), "message": bad[ix], "configuration": cfg})
            ok = set(idx) - set(bad)
            ks = [k for k, c in enumerate(cases) if c["p"] in ok]
            sub = [cases[k] for k in ks]
            obs = run_cases(w, exes, sub)
            ps = progs if cfg != "core" else [dict(p, cfg="core") for p in progs]
            wrong = conform(w, ps, sub, obs, "conform-" + cfg)
            w.log("%s: %d definitions, %d executions, %d deviate" % (cfg, len(ok), len(obs), len(wrong)))
            res.programs += len(ok); res.cases += len(obs)
            for o in obs.values(): res.classes[cfg + " " + o["r"]] += 1
            for j in sorted(wrong, key=lambda j: len(json.dumps(progs[sub[j]["p"]]["defs"])))[:MAXREP]:
                c = sub[j]
                res.violation("the real code does not follow the specification of its configuration", {"summary": "%s input %s entry %s: real %s, specification %s" % (cfg, hexs(c["input"]), c["e"], {f: obs[j][f] for f in ("r", "pos", "v", "n", "ch")}, wrong[j]),
                    "module": render.module(c["p"], progs[c["p"]]), "case": c, "observed": obs[j], "specified": wrong[j], "configuration": cfg})
            outs[cfg] = {ks[j]: o for j, o in obs.items()}
            for j in rng.sample(sorted(obs), min(2, len(obs))):
                if len(res.samples) < 12: res.samples.append({"configuration": cfg, "definition": render.module(sub[j]["p"], progs[sub[j]["p"]]).split("impl Obs")[0], "entry": sub[j]["e"], "input": hexs(sub[j]["input"]), "outcome": {f: obs[j][f] for f in ("r", "pos", "v", "n", "ch")}})
            if cfg != "std": res.extra["no_std definitions " + cfg] = nostd(w, res, progs, cfg, target)
        n = 0
        # executions of one case in two builds
        for a, b in (("std", "alloc"), ("std", "core"), ("alloc", "core")):
            for k in outs[a]:
                if k not in outs[b]: continue
                x, y = outs[a][k], outs[b][k]; n += 1
                same = {f: x[f] for f in ("r", "pos", "v", "n", "log")} == {f: y[f] for f in ("r", "pos", "v", "n", "log")} and x["ch"][:1] == y["ch"][:1] if b != "core" else \
                    (x["r"] != "ok" and y["r"] != "ok") or (x["r"] == y["r"] and x["pos"] == y["pos"] and x["v"] == y["v"])
                if not same and len(res.viol) < 12:
                    c = cases[k]
                    res.violation("two configurations disagree", {"summary": "%s %s / %s %s on input %s" % (a, {f: x[f] for f in ("r", "pos", "v", "ch")}, b, {f: y[f] for f in ("r", "pos", "v", "ch")}, hexs(c["input"])), "module": render.module(c["p"], progs[c["p"]]), "case": c, a: x, b: y})
        res.extra["executions compared between configurations"] = res.extra.get("executions compared between configurations", 0) + n
        if not res.viol: props.check("C19", w, res, progs, cases, rng, tier)
        rnd += 1
        if res.viol or time.time() > end: break
    res.extra["rounds"] = rnd
