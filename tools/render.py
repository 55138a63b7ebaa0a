"""Renders a program (the JSON form of a TLA+ program record) as Rust source.

The specification only looks at the semantic fields; the hints below only
concern how the same definition is written down:
  attr.st  "s" string syntax / "p" parenthesised (default)
  attr.al  alias name ("If" for Cond, "Default" for Ignore)
  field.g / def.g "split": one #[nom(..)] line per attribute
  def.der  extra derives      def.gen  generic parameters [{n, b}]
  def.wh   where-clause text   def.lt   number of lifetimes (0/1) is inferred
  prog.imp "min": only `use nom_derive::{Nom, Parse}`
"""
import json, re

PRIM = {"u8","u16","u32","u64","u128","i8","i16","i32","i64","i128","f32","f64","usize","isize","bool","char"}

def ty(t, defs, lt="'a"):
    k = t["k"]
    if "gp" in t: return t["gp"]
    if "rs" in t: return t["rs"]
    if "rf" in t: return t["rf"] + ty({x: y for x, y in t.items() if x != "rf"}, defs, lt)
    if k in PRIM: return k
    if k == "endian": return "Endianness"
    if k == "opt": return "Option<%s>" % ty(t["t"], defs, lt)
    if k == "vec": return "Vec<%s>" % ty(t["t"], defs, lt)
    if k == "arr": return "[%s; %s]" % (ty(t["t"], defs, lt), t.get("np", t["n"]))
    if k == "box": return "Box<%s>" % ty(t["t"], defs, lt)
    if k == "dfl": return "Dfl"
    if k == "tup": return "(%s, %s)" % (ty(t["a"], defs, lt), ty(t["b"], defs, lt))
    if k == "str": return "String"
    if k == "slice": return "&%s [u8]" % (t.get("lt", lt) if lt != "'_" else lt)
    if k == "ld" and t["l"] == "tl": return "LengthData<Tl, &%s [u8]>" % lt
    if k == "ld": return "LengthData%s<%s>" % (t["l"].upper(), lt)
    if k == "phantom": return "PhantomData<%s>" % (ty(t["t"], defs, lt) if "t" in t else "u8")
    if k == "w8": return "W8"
    if k == "cus": return {"u16le": "CusLe16", "u32be": "CusBe32", "u16tri": "Tri"}[t["w"] + t["e"]]
    if k == "def":
        d = defs[t["d"]]
        a = []
        a += [lt] * len(lts(d, defs))
        if "ga" in t: a += [ty(x, defs, lt) for x in t["ga"]]
        elif d.get("gen"): a += [str(x["c"]) if "c" in x else ty(x["t"], defs, lt) for x in d["gen"]]
        return d.get("rn", t["d"]) + ("<%s>" % ", ".join(a) if a else "")
    raise Exception("type " + json.dumps(t))

def ty_lts(t, defs, seen=()):
    """the lifetimes a type mentions, as the definition it stands in declares them"""
    k = t["k"]
    if "gp" in t: return []
    if k == "slice": return [t.get("lt", "'a")]
    if k == "ld": return ["'a"]
    if k in ("opt", "vec", "arr", "box"): return ty_lts(t["t"], defs, seen)
    if k == "tup": return ty_lts(t["a"], defs, seen) + ty_lts(t["b"], defs, seen)
    if k == "def": return ["'a"] if t["d"] not in seen and lts(defs[t["d"]], defs, seen + (t["d"],)) else []
    return []

def all_fields(d):
    return list(d.get("fields", [])) + [f for v in d.get("variants", []) for f in v.get("fields", [])]

def lts(d, defs, seen=()):
    if d["kind"] == "type": return []
    return sorted({l for f in all_fields(d) for l in ty_lts(f["t"], defs, seen)} | set(d.get("lts", ())))
def has_lt(d, defs): return bool(lts(d, defs))

MAC = None
def mac(kind, text):
    """in a definition made by a macro, a fragment that is given to it"""
    if MAC is None or MAC["rng"].random() < 0.35: return text
    MAC["a"].append((kind, text))
    return "$m%d" % (len(MAC["a"]) - 1)
def tym(t, defs):
    if MAC is not None and t["k"] in ("opt", "vec", "arr") and not {"gp", "rs", "rf"} & set(t) and MAC["rng"].random() < 0.5:
        x = tym(t["t"], defs)
        return {"opt": "Option<%s>", "vec": "Vec<%s>", "arr": "[%%s; %s]" % t.get("np", t["n"])}[t["k"]] % x if t["k"] == "arr" else {"opt": "Option<%s>", "vec": "Vec<%s>"}[t["k"]] % x
    return mac("ty", ty(t, defs))
OPEN_ = ('"var"', '"bvar"', '"evar"', '"ilen"', '"vlen"', '"self"', '"slen"', '"some"', '"nm"')
def closed(a): return not any(x in json.dumps(a) for x in OPEN_)

class Ex:
    """expression rendering context"""
    def __init__(s, inp="i", me=None, met=None): s.inp, s.me, s.met = inp, me, met
    def e(s, e, top=True):
        o = e["op"]; E = lambda x: s.e(x, False)
        def par(x): return x if top else "(" + x + ")"
        if o == "lit": return str(e.get("nm", e["n"])) + e.get("sf", "")
        if o in ("var", "bvar", "evar"): return e["x"]
        if o == "as": return par("%s as usize" % E(e["l"]))
        if o == "asi": return par("%s as isize" % E(e["l"]))
        if o == "self": return "*" + s.me
        if o == "slen": return "(%s as &%s).len()" % (s.me, s.met)
        if o == "ilen": return s.inp + ".len()"
        if o == "vlen": return e["x"] + ".len()"
        if o in ("add", "sub", "mul"):
            return par("%s %s %s" % (E(e["l"]), {"add": "+", "sub": "-", "mul": "*"}[o], E(e["r"])))
        if o == "mod": return par("%s %% %d" % (E(e["l"]), e["n"]))
        if o == "neg": return par("-%s" % E(e["l"]))
        if o == "ite": return "(if %s { %s } else { %s })" % (s.e(e["c"]), s.e(e["l"]), s.e(e["r"]))
        if o == "lg": return "lgb(%d, %s)" % (e["id"], s.e(e["l"]))
        if o == "bool": return "true" if e["b"] else "false"
        if o in ("eq", "ne", "lt", "gt", "le", "ge"):
            return par("%s %s %s" % (E(e["l"]), {"eq": "==", "ne": "!=", "lt": "<", "gt": ">", "le": "<=", "ge": ">="}[o], E(e["r"])))
        if o == "and": return par("%s && %s" % (E(e["l"]), E(e["r"])))
        if o == "or": return par("%s || %s" % (E(e["l"]), E(e["r"])))
        if o == "not": return "!" + E(e["l"])
        if o == "some": return e["x"] + ".is_some()"
        if o == "end": return "Endianness::Big" if e["v"] == "be" else "Endianness::Little"
        if o == "eite": return "if %s { Endianness::Big } else { Endianness::Little }" % s.e(e["c"])
        raise Exception("expr " + json.dumps(e))

def pf(f, defs, ex, inner=True):
    p = f["p"]
    if p == "num": return "nom::number::streaming::%s_%s" % (f["e"], f["w"])
    if p == "take": return "nom::bytes::streaming::take((%s) as usize)" % ex.e(f["n"])
    if p == "ty":
        return "<%s>::%s" % (ty(f["t"], defs, "'_"), {"parse": "parse", "be": "parse_be", "le": "parse_le"}[f.get("re", f["e"])])
    if p == "callx":
        i2 = Ex("i", None)
        t = ty({"k": "def", "d": f["d"]}, defs, "'_")
        d = defs[f["d"]]
        return "{ |i| <%s>::%s(i%s) }" % (t, {"parse": "parse", "be": "parse_be", "le": "parse_le"}[f.get("re", f["e"])],
                                   "".join(", " + i2.e(a) for a in f["args"]))
    if p == "err": return "pf_fail" if f["hard"] else "pf_err"
    if p == "ldata": return "nom::multi::length_data(nom::number::streaming::%s_%s)" % (f["e"], f["w"])
    if p == "sub": return "nom::combinator::map_parser(nom::bytes::streaming::take((%s) as usize), %s)" % (ex.e(f["n"]), pf(f["f"], defs, ex))
    if p == "lg": return "lgp(%d, %s)" % (f["id"], pf(f["f"], defs, ex))
    if p == "cond": return "nom::combinator::cond(%s, %s)" % (ex.e(f["n"]), pf(f["f"], defs, ex))
    if p == "rest": return "nom::combinator::rest"
    raise Exception("pf " + json.dumps(f))

def conv(m):
    if "rs" in m: return m["rs"]
    c = m["c"]; l = "lg0(%d); " % m["id"] if "id" in m else ""
    return {"id": "|x: %s| { %sx }" % (m.get("ty", "_"), l), "tovec": "|s: &[u8]| { %ss.to_vec() }" % l,
            "len": "|s: &[u8]| { %ss.len() }" % l, "inc8": "|x: u8| { %sx.wrapping_add(1) }" % l,
            "dbl8": "|x: u8| { %sx as u16 * 2 }" % l, "hi16": "|x: u16| { %s(x >> 8) as u8 }" % l,
            "wide": "|x| { %sx.into() }" % l,
            "vsum": "|v: Vec<u8>| { %sv.iter().map(|b| *b as usize).sum::<usize>() }" % l,
            "optor": "|o: Option<u8>| { %so.unwrap_or(%d) }" % (l, (m.get("d") or [0])[0])}[c]

def stmt(s, ex, built):
    k = s["s"]
    if k == "mk": return "lgr(%d, %s);" % (s["id"], ex.inp)
    if k == "mv": return "lgv(%d, &%s);" % (s["id"], s["x"])
    if k == "let":
        if s["t"]["k"] == "bool": return "let %s = %s;" % (s["x"], ex.e(s["e"]))
        return "let %s = (%s) as %s;" % (s["x"], ex.e(s["e"]), s["t"]["k"])
    if k == "rd": return "let (%s, %s) = nom::number::streaming::%s_%s(%s)?;" % (ex.inp, s["x"], s["e"], s["t"]["k"], ex.inp)
    if k == "adv": return "let %s = &%s[core::cmp::min(%d, %s.len())..];" % (ex.inp, ex.inp, s["n"], ex.inp)
    if k == "win": return "let wnd = &%s[core::cmp::min(%d, %s.len())..]; let %s = &%s[..core::cmp::min(%d, %s.len())];" % (ex.inp, s["n"], ex.inp, ex.inp, ex.inp, s["n"], ex.inp)
    if k == "unwin": return "let %s = wnd;" % ex.inp
    if k == "push": return "%s.push((%s) as u8);" % (s["x"], ex.e(s["e"]))
    if k == "built": return "lgv(%d, &%s);" % (s["id"], built)
    raise Exception("stmt " + json.dumps(s))

def bstr(b): return 'b"%s"' % "".join("\\x%02x" % x for x in b)

def pat(p):
    k = p["p"]
    if "rs" in p: return p["rs"]
    if k == "lit": return str(p["n"])
    if k == "range": return "%d..=%d" % (p["lo"], p["hi"])
    if k == "from": return "%d.." % p["lo"]
    if k == "or": return " | ".join(pat(x) for x in p["ps"])
    if k == "wild": return "_"
    if k == "bind": return p["x"]
    if k == "at": return "%s @ %s" % (p["x"], "(%s)" % pat(p["q"]) if p["q"]["p"] == "or" else pat(p["q"]))
    if k == "some": return "Some(%s)" % pat(p["q"])
    raise Exception("pat " + json.dumps(p))

# ways of writing the same expression
SPELL = ["{ %s }", "(%s)", "if true { %s } else { panic!() }", "match %s { v__ => v__ }", "(|| %s)()", "{ let t__ = %s; t__ }", "core::convert::identity(%s)", "(%s, 0u8).0", "pick2::<_, u8>(%s, 0)",
         "*&(%s)", "loop { break %s }", "unsafe { %s }", "Sl { a: %s }.a", "same(%s, \"a,)(;\")", "same(%s, ')')", "[%s][0]", "(move |x__| x__)(%s)", "Sl::mk(%s).get()", "{ same((), \"}{\"); %s }", "crate::ident!(%s)"]
SPELL_P = ["{ %s }", "(%s)", "{ let p__ = %s; p__ }", "match () { () => %s }", "unsafe { %s }", "core::convert::identity(%s)", "Sl { a: %s }.a", "(%s, 0u8).0", "crate::ident!(%s)", "|i__| nom::Parser::parse(&mut %s, i__)", "move |i__| nom::Parser::parse(&mut (%s), i__)"]
SPELL_T = ["(%s)", "*%s", "&%s", "{ %s }", "if true { %s } else { panic!() }", "%s.as_slice()", "Sl { a: %s }.a", "same(%s, ')')", "(&%s[..])", "<&[u8]>::from(%s)", "%s as &[u8]"]
SPELL_S = ["{ %s }", "if true { %s }", "match () { () => { %s } }", "unsafe { %s }", "for _ in 0..1 { %s }", "loop { %s break; }", "let _ = { %s };", "(|| { %s })();", "crate::ident! { { %s } }", "{ { %s } same((), \",)\"); }", "if false { panic!() } else { %s }"]
def spell(a, n, arg):
    if "sp" not in a: return arg
    if n in ("Cond", "Count", "Verify", "ErrorIf", "Take", "Value", "AlignBefore", "AlignAfter", "SkipBefore", "SkipAfter", "Move", "MoveAbs", "SetEndian"): return SPELL[a["sp"] % len(SPELL)] % arg
    if n in ("Parse", "LengthCount", "Map") and not arg.startswith(("|", "{ |")): return SPELL_P[a["sp"] % len(SPELL_P)] % arg
    if n == "Parse" and arg.startswith("{ |") and a["sp"] % 3 == 0: return arg[2:-2]
    if n in ("Parse", "Map"): return SPELL_P[a["sp"] % 2] % arg
    if n in ("PreExec", "PostExec") and a["s"]["s"] in ("mk", "mv", "push", "built"): return SPELL_S[a["sp"] % len(SPELL_S)] % arg
    if n == "Tag": return SPELL_T[a["sp"] % len(SPELL_T)] % arg
    return arg

def attr(a, defs, ex, d, lvl):
    """one nom attribute"""
    if MAC is not None and a.get("st") == "s": a = {k: v for k, v in a.items() if k != "st"}
    n = a["a"]; nm = a.get("al", n)
    built = "struct_def" if d["kind"] == "struct" else "enum_def"
    if "raw" in a: return a["raw"]
    if n in ("BigEndian","LittleEndian","Complete","Debug","DebugDerive","Exact","GenericErrors","Ignore","Into"): return nm
    if n == "ExtraArgs":
        return "ExtraArgs(%s)" % ", ".join("%s: %s" % (p["n"], tym(p["t"], defs)) for p in a["ps"])
    if n == "InputName": arg = a["n"]
    elif n == "Selector":
        if lvl == "top": arg = tym(a["t"], defs)
        else: arg = (mac("pat", pat(a["pat"])) if closed(a) and a["pat"]["p"] not in ("bind", "at") and '"x"' not in json.dumps(a["pat"]) and a["pat"]["p"] != "wild" else pat(a["pat"])) + (" if " + (SPELL[a["sp"] % len(SPELL)] % ex.e(a["guard"]) if "sp" in a else ex.e(a["guard"])) if a.get("hasguard") else "")
    elif n == "SetEndian":
        arg = ex.e(a["e"])
        if "id" in a: arg = "lge(%d, %s)" % (a["id"], arg)
    elif n in ("PreExec", "PostExec"): arg = stmt(a["s"], ex, built)
    elif n == "Tag": arg = mac("literal", bstr(a["b"])) if "sp" not in a else bstr(a["b"])
    elif n in ("Parse", "LengthCount"): arg = pf(a["f"], defs, ex)
    elif n == "Map": arg = conv(a["m"])
    else: arg = mac("expr", ex.e(a["e"])) if closed(a) and n not in ("Verify",) else ex.e(a["e"])
    arg = spell(a, n, arg)
    if a.get("st") == "s":
        return '%s="%s"' % (nm, arg.replace("\\", "\\\\").replace('"', '\\"'))
    return "%s(%s)" % (nm, arg)

def attrs(l, g, defs, ex, d, lvl, t=None):
    r = []
    for a in l:
        # the type at this level of the parser expression, for conditions calling methods
        if t is not None and a["a"] == "Verify": ex.met = "[u8]" if t["k"] == "slice" else ty(t, defs, "'_")
        x = attr(a, defs, ex, d, lvl)
        if a.get("mrg") and r and g != "split" and not (t is not None and a.get("st") == "s") and r[-1].startswith(a["a"] + "(") and x.startswith(a["a"] + "("):
            r[-1] = r[-1][:-1] + " " + x[len(a["a"]) + 1:]     # several statements in one attribute
        else: r.append(x)
        if t is not None and a["a"] in ("Cond", "Count", "LengthCount") and "t" in t: t = t["t"]
    if not r: return ""
    if g == "split": return "".join("#[nom(%s)] " % x for x in r)
    return "#[nom(%s)] " % ", ".join(r)

def inp_name(d):
    for a in d.get("attrs", []):
        if a["a"] == "InputName": return a["n"]
    return "i"

def gen_params(d, defs, decl=True, dflt=True):
    a = []
    for l in lts(d, defs): a.append(l + (d.get("ltb", {}).get(l, "") if decl else ""))
    for g in d.get("gen", []):
        if "c" in g: a.append("const %s: usize" % g["n"] if decl else g["n"])
        else: a.append(g["n"] + (": " + g["b"] if decl and g.get("b") else "") + (" = " + g["df"] if decl and dflt and g.get("df") else ""))
    return "<%s>" % ", ".join(a) if a else ""

def fields(fs, shape, defs, d, pub=True):
    inp = inp_name(d)
    out = []
    for f in fs:
        ex = Ex(inp, f["n"])
        at = attrs(f["attrs"], f.get("g"), defs, ex, d, "field", f["t"])
        p = f.get("vis", "pub ") if pub else ""
        at = f.get("doc", "") + at + f.get("doc2", "")
        if shape == "named": out.append("%s%s%s: %s" % (at, p, f["n"], tym(f["t"], defs)))
        else: out.append("%s%s%s" % (at, p, tym(f["t"], defs)))
    return ", ".join(out)

def definition(name, d, defs, macro=None):
    if d["kind"] == "type": return ""
    if d.get("rn", name) != name: return ""
    global MAC
    if macro is not None:
        import random
        MAC = {"a": [], "rng": random.Random("%s%s" % (macro, name))}
        try:
            text = definition(name, d, defs)
            a = MAC["a"]
        finally: MAC = None
        # the observation code is written outside of the macro
        k = text.index("\x00")
        return "macro_rules! mk_%s { ($n:ident %s) => { %s } }\nmk_%s!(%s %s);\n%s" % (name.lower(), "".join(", $m%d:%s" % (j, x[0]) for j, x in enumerate(a)), text[:k], name.lower(), name, "".join(", " + x[1] for x in a), text[k + 1:])
    inp = inp_name(d)
    ex = Ex(inp, None)
    gp = gen_params(d, defs); gu = gen_params(d, defs, False)
    der = list(d.get("der", []))
    if d["kind"] == "fieldless": der = der + [x for x in ("Clone", "Copy", "PartialEq", "Eq") if x not in der]
    o = []
    if not d.get("norm"): der = der + [d["drv"]]
    o.append(d.get("doc", ""))
    if der: o.append("#[derive(%s)]\n" % ", ".join(der))
    vis = d.get("vis", "pub ")
    if d["kind"] == "fieldless" and not d.get("norepr"): o.append("#[repr(%s)]\n" % d["repr"])
    o.append(attrs(d["attrs"], d.get("g"), defs, ex, d, "top"))
    o.append(d.get("doc2", ""))
    real, name = name, "$n" if MAC is not None else name
    wh = " where " + d["wh"] if d.get("wh") else ""
    if d["kind"] == "struct":
        if d["shape"] == "named": o.append(vis + "struct %s%s%s { %s }\n" % (name, gp, wh, fields(d["fields"], "named", defs, d)))
        elif d["shape"] == "unnamed": o.append(vis + "struct %s%s(%s)%s;\n" % (name, gp, fields(d["fields"], "unnamed", defs, d), wh))
        else: o.append(vis + "struct %s;\n" % name)
    else:
        vs = []
        for v in d["variants"]:
            at = v.get("doc", "") + attrs(v.get("attrs", []), v.get("g"), defs, ex, d, "variant") + v.get("doc2", "")
            if d["kind"] == "fieldless":
                vs.append(at + v["n"] + (" = %s" % mac("expr", str(v["x"])) if "x" in v else ""))
            elif v["shape"] == "unit": vs.append(at + v["n"])
            elif v["shape"] == "named": vs.append("%s%s { %s }" % (at, v["n"], fields(v["fields"], "named", defs, d, False)))
            else: vs.append("%s%s(%s)" % (at, v["n"], fields(v["fields"], "unnamed", defs, d, False)))
        o.append(vis + "enum %s%s%s { %s }\n" % (name, gp, wh, ", ".join(vs)))
    name = real
    if MAC is not None: o.append("\x00")
    # observation
    ps = ["%s%s" % (l, d.get("ltb", {}).get(l, "")) for l in lts(d, defs)]
    ps += ["const %s: usize" % g["n"] if "c" in g else g["n"] + ": Obs" + (" + " + g["b"] if g.get("b") else "") for g in d.get("gen", [])]
    o.append("impl%s Obs for %s%s%s { fn obs(&self, o: &mut Vec<i64>) { " % ("<%s>" % ", ".join(ps) if ps else "", name, gu, wh))
    if d["kind"] == "struct":
        if d["shape"] == "named": o.append("".join("self.%s.obs(o); " % f["n"] for f in d["fields"]))
        else: o.append("".join("self.%d.obs(o); " % k for k in range(len(d.get("fields", [])))))
    else:
        o.append("match self { ")
        for k, v in enumerate(d["variants"]):
            fs = v.get("fields", [])
            if d["kind"] == "fieldless" or v["shape"] == "unit": o.append("%s::%s => o.push(%d), " % (name, v["n"], k))
            elif v["shape"] == "named":
                o.append("%s::%s { %s } => { o.push(%d); %s } " % (name, v["n"], ", ".join("%s: x%d" % (f["n"], j) for j, f in enumerate(fs)), k, "".join("x%d.obs(o); " % j for j in range(len(fs)))))
            else:
                o.append("%s::%s(%s) => { o.push(%d); %s } " % (name, v["n"], ", ".join("x%d" % j for j in range(len(fs))), k, "".join("x%d.obs(o); " % j for j in range(len(fs)))))
        o.append("} ")
    o.append("} }\n")
    if d.get("flat1") and d["kind"] == "fieldless":  # usable as an argument
        o.append("impl FromFlat for %s { fn from_flat(v: &[u8]) -> Self { match v[0] { %s _ => panic!() } } }\n" % (name, " ".join("%d => %s::%s," % (j, name, v["n"]) for j, v in enumerate(d["variants"]))))
    elif d.get("flat1"):  # newtype around one scalar, usable as an argument
        t = ty(d["fields"][0]["t"], defs)
        c = "%s(%s::from_flat(v))" % (name, t) if d["shape"] == "unnamed" else "%s { %s: %s::from_flat(v) }" % (name, d["fields"][0]["n"], t)
        o.append("impl FromFlat for %s { fn from_flat(v: &[u8]) -> Self { %s } }\n" % (name, c))
    return "".join(o)

def args_of(d):
    r = []
    for a in d.get("attrs", []):
        if a["a"] == "Selector": r.append(a["t"])
    for a in d.get("attrs", []):
        if a["a"] == "ExtraArgs": r += [p["t"] for p in a["ps"]]
    return r

def runner(p):
    defs = p["defs"]; d = defs[p["main"]]
    inh = any(a["a"] in ("Selector", "ExtraArgs") for a in d.get("attrs", []))
    if d["kind"] == "type": t = ty(d["t"], defs, "'_")
    else: t = ty({"k": "def", "d": p["main"]}, defs, "'_")
    err = {"chain": "Tr", "nodbg": "Tn", "noext": "Tq", "pair": "(&[u8], nom::error::ErrorKind)", "unit": "()"}.get(p["err"], "nom::error::Error<&[u8]>")
    def arg(x, j):
        v = "<%s>::from_flat(&a[%d])" % (x.get("own") or ty({k: y for k, y in x.items() if k != "rf"}, defs), j)
        return "%s%s" % (x["rf"], v) if "rf" in x else x["via"] % v if "via" in x else v
    out = "pub fn run(e: u8, a: &[Vec<u8>], i: &[u8]) -> Out { match e { "
    for k, f in enumerate(("parse", "parse_be", "parse_le")):
        if inh:
            c = "<%s>::%s(i%s)" % (t, f, "".join(", " + arg(x, j) for j, x in enumerate(args_of(d))))
            if p["err"] in ("chain", "pair", "unit", "nodbg", "noext"): c = {"chain": "tr", "nodbg": "trn", "noext": "trq", "pair": "trp", "unit": "tru"}[p["err"]] + "(%s)" % c
        elif p.get("inp") == "cust": c = "cin(<%s as Parse<Cin<'_>, nom::error::Error<Cin<'_>>>>::%s(Cin(i)))" % (re.sub(r"LengthDataU(\d+)<'_>", r"LengthData<u\1, Cin<'_>>", t).replace("LengthData<Tl, &'_ [u8]>", "LengthData<Tl, Cin<'_>>"), f)
        else: c = "<%s as Parse<&[u8], %s>>::%s(i)" % (t, err, f)
        out += "%s => fin(%s), " % (k if k < 2 else "_", c)
    return out + "} }\n"

def module(idx, p):
    s = "pub mod p%d {\n" % idx
    s += "use nom_derive::{Nom, NomBE, NomLE, Parse};\n" if p.get("imp") == "min" else "use nom_derive::*;\n"
    s += "use crate::pre::*;\n"
    # definitions: dependencies first is not needed in Rust
    for n in sorted(p["defs"]): s += definition(n, p["defs"][n], p["defs"], p.get("macro"))
    s += p.get("extra", "")
    s += runner(p)
    return s + "}\n"
