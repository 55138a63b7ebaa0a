"""C17: which definitions the derive accepts.

(a) spec/Accept.tla: TLC enumerates every sketch of a definition within its bounds, with the verdict of the specification;
    each one is written out and compiled: accepted ones must compile, refused ones must be reported by the derive itself.
(b) well-formed programs of every other family, with only the documented imports in scope, must compile."""
import json, os, random, re, shutil
from vlib import *
import render

ARG = {"AlignAfter": "4", "AlignBefore": "4", "Cond": "true", "Count": "2", "ErrorIf": "false", "ExtraArgs": "x: u8", "InputName": "inp",
       "LengthCount": "nom::number::streaming::be_u8", "Map": "|x: u8| x", "Move": "0", "MoveAbs": "0", "Parse": "nom::number::streaming::be_u8",
       "PostExec": "let _z = 1u8;", "PreExec": "let _z = 2u8;", "Selector": None, "SetEndian": "nom::number::Endianness::Big",
       "SkipAfter": "1", "SkipBefore": "1", "Tag": 'b"x"', "Take": "1", "Value": "7", "Verify": "*f > 0"}
CANON = {"If": "Cond", "Default": "Ignore"}
TY = {"u8": "u8", "u16": "u16", "opt": "Option<u8>", "vec": "Vec<u8>", "slice": "&'a [u8]"}

def one(at, slot):
    n, f = at["a"], at["f"]
    if n in ("_bare", "_eq", "_lit", "_path", "_doc", "_allow", "_empty"): return None
    c = CANON.get(n, n)
    arg = ARG.get(c)
    if c == "Selector": arg = "u8" if slot == "top" else "9"
    if c == "Map" and slot == "variant": arg = "|x: ()| x"
    if f == "path": return n
    if f == "list": return "%s(%s)" % (n, arg)
    if f == "str": return '%s="%s"' % (n, (arg or "1").replace("\\", "\\\\").replace('"', '\\"'))
    if f == "num": return "%s=1" % n
    if f == "void": return "%s()" % n
    if f == "blank": return '%s=""' % n
    if f == "bad": return '%s="1 + ) 2"' % n
RAW = {"_bare": "#[nom] ", "_eq": '#[nom = "x"] ', "_lit": "#[nom(1)] ", "_path": "#[nom(a::Count(3))] ",
       "_doc": "#[doc = \"some text\"] ", "_allow": "#[allow(dead_code)] ", "_empty": "#[nom()] "}
def attrs(d, slot):
    out, cur = "", []
    for at in d["attrs"]:
        x = one(at, slot)
        if x is None:
            if cur: out += "#[nom(%s)] " % ", ".join(cur); cur = []
            out += RAW[at["a"]]
        elif d["split"]: out += "#[nom(%s)] " % x
        else: cur.append(x)
    if cur: out += "#[nom(%s)] " % ", ".join(cur)
    return out

def source(ix, d):
    sk, slot, pos = d["sk"], d["slot"], d["pos"]
    def A(s, p):
        if slot == s and pos == p: return attrs(d, s)
        if not d["busy"] or (slot == "top" and s == "top"): return ""
        # an attribute that is right at this place
        if s == "top": return "#[nom(Complete)] "
        if s == "variant": return "#[nom(PreExec(let _y = 3u8;))] " if sk.startswith("senum") and p == 3 else ""
        return "#[nom(%s)] " % ("Parse=\"nom::number::streaming::be_u8\"", "PreExec(let _y = 3u8;), SkipAfter(1)", "LittleEndian")[p % 3]
    ty = TY[d["ty"]] if slot == "field" else "u8"
    lt = "<'a>" if "'a" in ty else ""
    T = lambda p: ty if slot == "field" and pos == p else "u8"
    top = A("top", 1)
    o = "pub mod p%d {\n" % ix
    o += "use nom_derive::{%s, Parse};\n" % d["drv"] if d["imp"] == "min" else "use nom_derive::*;\n"
    der = "#[derive(%s)]\n" % d["drv"]
    if sk == "named": o += der + top + "pub struct S%s { %spub f: %s, %spub g: %s }\n" % (lt, A("field", 1), T(1), A("field", 2).replace("*f", "*g"), T(2))
    elif sk == "tuple": o += der + top + "pub struct S%s(%spub %s, %spub %s);\n" % (lt, A("field", 1), T(1), A("field", 2), T(2))
    elif sk == "named5": o += der + top + "pub struct S%s { %s }\n" % (lt, ", ".join("%spub %s: %s" % (A("field", p).replace("*f", "*" + v), v, T(p)) for p, v in zip(range(1, 6), "fghkl")))
    elif sk == "tuple5": o += der + top + "pub struct S%s(%s);\n" % (lt, ", ".join("%spub %s" % (A("field", p), T(p)) for p in range(1, 6)))
    elif sk == "unit": o += der + top + "pub struct S;\n"
    elif sk == "union": o += "#[derive(Clone, Copy)] " + der + top + "pub union S { pub f: u8, pub g: u8 }\n"
    elif sk.startswith("fenum"):
        rep = {"fenum": "u8", "fenum_i": "i16", "fenum_usize": "usize", "fenum_c": "C"}.get(sk)
        sel = sk == "fenum_sel"
        o += "#[derive(Clone, Copy, PartialEq, Eq)] " + der + ("#[repr(%s)]\n" % rep if rep else "") + ("#[nom(Selector=\"u8\")] " if sel else "") + top
        o += "pub enum S { " + ", ".join("%s%s%s%s" % ("#[nom(Selector(%d))] " % p if sel else "", A("variant", p), v, "" if sel else " = %d" % p) for p, v in ((1, "A"), (2, "B"), (3, "C"))) + " }\n"
    elif sk.startswith("mixed"):
        # no Selector, one variant with fields among ones without
        at = int(sk.replace("_repr", "")[-1])
        o += der + ("#[repr(u8)]\n" if sk.endswith("_repr") else "") + top
        o += "pub enum S { " + ", ".join(v + ("" if p != at else "(u8)" if sk.startswith("mixedt") else " { f: u8 }") for p, v in ((1, "A"), (2, "B"), (3, "C"))) + " }\n"
    else:
        tup = sk.startswith("senumt") or sk.startswith("enumt")
        nosel = "enum_nosel" in sk or "enumt_nosel" in sk
        miss = int(sk[-1]) if "novsel" in sk else 0
        o += der + ("#[repr(u8)]\n" if sk.endswith("_repr") else "") + ("" if nosel else "#[nom(Selector=\"u8\")] ") + top
        vs = []
        for p, v in ((1, "A"), (2, "B"), (3, "C")):
            s = ("" if nosel or p == miss else "#[nom(Selector(%d))] " % p) + A("variant", p) + v
            if p < 3: s += ("(%s%s)" if tup else " { %sf: %s }") % (A("field", p), T(p))
            vs.append(s)
        o += "pub enum S%s { %s }\n" % (lt, ", ".join(vs))
    return o + "}\n"

def compile_all(w, items, sub, want_accept):
    """items: {ix: source}; returns {ix: None | ("derive", msg) | ("other", msg)}"""
    d = write_crate(w, sub)
    res = {ix: None for ix in items}
    alive = sorted(items)
    for attempt in range(5):
        bins = os.path.join(d, "src", "bin")
        for f in os.listdir(bins): os.remove(os.path.join(bins, f))
        where = {}
        for k in range(NB):
            g = alive[k::NB]
            if not g: continue
            out = "#![allow(warnings)]\n"
            for ix in g:
                a = out.count("\n") + 1
                out += items[ix]
                for ln in range(a, out.count("\n") + 1): where[("src/bin/h%d.rs" % k, ln)] = ix
            open(os.path.join(bins, "h%d.rs" % k), "w").write(out + "fn main() {}\n")
        rc, msgs, err = cargo(w, d, ["check", "--bins", "--keep-going"])
        if rc == 0: return res
        bad = {}
        for m in msgs:
            if m.get("reason") != "compiler-message" or not m["message"]["level"].startswith("error"): continue
            mm = m["message"]
            if "h-%s" % w.name not in m.get("package_id", "") and "/%s" % sub not in m.get("package_id", ""):
                raise CheckError("/repo does not build:\n" + (mm.get("rendered") or "")[:3000])
            # errors of the code that was generated are not reports of the derive
            by = mm.get("code") is None and "unparsable" not in mm["message"] and not (
                mm["message"].startswith("expected ") and any(s.get("expansion") for s in mm["spans"]))
            for loc in err_locs(mm):
                if loc in where:
                    ix = where[loc]
                    if by: bad[ix] = ("derive", (mm.get("rendered") or "")[:1500])
                    else: bad.setdefault(ix, ("other", (mm.get("rendered") or "")[:1500]))
                    break
        if not bad: raise CheckError("does not compile, no definition to blame:\n" + err[-3000:])
        res.update(bad)
        if not want_accept: return res
        alive = [x for x in alive if x not in bad]
        if not alive: return res
    return res

LINE = re.compile(r'^"SKETCH (.*)"$')
def sketches(w):
    rc, out = tlc(w, "Accept", "Accept.cfg", {}, tag="accept")
    got = []
    for l in out.splitlines():
        g = LINE.match(l)
        if g: got.append(json.loads(json.loads('"%s"' % g.group(1))))
    st = STATES.findall(out)
    if rc != 0 or not got or not st: raise CheckError("TLC: no sketches (rc %d)\n%s" % (rc, "\n".join(l for l in out.splitlines() if "SKETCH" not in l)[-3000:]))
    w.stats["transitions"] = w.stats.get("transitions", 0) + int(st[-1][0].replace(",", ""))
    w.stats["states"] = w.stats.get("states", 0) + int(st[-1][1].replace(",", ""))
    got.sort(key=lambda x: json.dumps(x, sort_keys=True))
    return got

MAXREP = 6
def check(w, res, tier, seed):
    import fam, shapes
    rng = random.Random("C17-%d" % seed)
    got = sketches(w)
    acc = {i: source(i, x["d"]) for i, x in enumerate(got) if x["v"] == "accept"}
    rej = {i: source(i, x["d"]) for i, x in enumerate(got) if x["v"] == "reject"}
    w.log("%d sketches to accept, %d to reject" % (len(acc), len(rej)))
    ra = compile_all(w, acc, "accept", True)
    w.log("accepted ones compiled")
    rr = compile_all(w, rej, "reject", False)
    w.log("rejected ones compiled")
    n = 0
    for i in sorted((i for i in ra if ra[i]), key=lambda i: len(acc[i])):
        n += 1
        if n <= MAXREP:
            res.violation("a well-formed definition is not accepted", {"summary": ra[i][1].split("\n")[0], "sketch": got[i], "module": acc[i], "message": ra[i][1]})
    n = 0
    for i in sorted((i for i in rr if not rr[i] or rr[i][0] != "derive"), key=lambda i: len(rej[i])):
        n += 1
        if n <= MAXREP:
            res.violation("an ill-formed definition is not reported by the derive", {"summary": rej[i].replace("\n", " ")[:300], "sketch": got[i], "module": rej[i], "message": rr[i] and rr[i][1]})
    res.classes.update({"accepted": sum(1 for i in ra if not ra[i]), "reported by the derive": sum(1 for i in rr if rr[i] and rr[i][0] == "derive")})
    for i in rng.sample(sorted(acc), 4): res.samples.append({"definition": acc[i], "verdict": "accepted"})
    for i in rng.sample(sorted(rej), 4): res.samples.append({"definition": rej[i], "verdict": "reported", "message": (rr[i] or ("", ""))[1].split("\n")[0]})
    w.stats["validated"] = w.stats.get("validated", 0) + len(acc) + len(rej)
    # (b) well-formed programs of the other families
    progs = []
    for p in sorted(fam.FAMILIES):
        ps = fam.FAMILIES[p](random.Random("%s-%d" % (p, seed)), 2 if tier == "thorough" else 1)
        progs += rng.sample(ps, min(len(ps), 1500 if tier == "thorough" else 170))
    progs += shapes.every(random.Random("shapes-%d" % seed))
    for p in sorted(fam.FAMILIES_): progs += shapes.macros(p, rng, 20)
    for k, p in enumerate(progs):
        if "LengthData" not in render.module(k, p): p["imp"] = "min"
    bad = {}
    for a in range(0, len(progs), 3000):
        ixs = range(a, min(a + 3000, len(progs)))
        bad.update(build_harness(w, progs, ixs)[1])
    w.log("%d well-formed programs, %d do not compile" % (len(progs), len(bad)))
    for ix in sorted(bad, key=lambda i: len(json.dumps(progs[i]["defs"])))[:MAXREP]:
        res.violation("a well-formed definition no longer compiles", {"summary": bad[ix].split("\n")[0], "module": render.module(ix, progs[ix]), "message": bad[ix]})
    res.programs = len(progs) - len(bad) + len(acc) + len(rej)
    w.stats["validated"] += len(progs)
    res.extra["sketches"] = {"accepted": len(acc), "rejected": len(rej)}
    known(w, res)

# LengthData with a lifetime, inferred: refused by the borrow checker (see KNOWN_FINDINGS.txt)
PROBE = """#![allow(warnings)]
use nom_derive::*;
#[derive(Nom)] pub struct S<'a> { pub a: LengthDataU16<'a> }
fn main() {}
"""
def known(w, res):
    d = write_crate(w, "probe")
    open(os.path.join(d, "src", "main.rs"), "w").write(PROBE)
    listed = any(l.startswith("known: property=C17 id=lengthdata-lifetime") for l in open(os.path.join(ROOT, "KNOWN_FINDINGS.txt")))
    rc, msgs, err = cargo(w, d, ["check"])
    if rc == 0: return
    if listed and any("lifetime may not live long enough" in json.dumps(m) for m in msgs):
        print("KNOWN-FINDING: property=C17 a field of type LengthDataU8/U16/U32/U64<'a> whose parser is inferred does not compile (lifetime may not live long enough)", flush=True)
    else:
        res.violation("a well-formed definition is not accepted", {"summary": "LengthDataU16<'a> field", "module": PROBE, "message": err[-3000:]})
