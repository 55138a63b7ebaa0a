"""Systematic families of definitions, one function per property: every relevant construct (snippet) in every
context (shape of the type, nesting, byte order, renaming, error type, ...), plus random programs."""
import itertools, re
from gen import *
from rand import random_programs, RG

# ------------------------------------------------------------------ contexts
PLAIN = lambda j: "a%d" % j
ODD = ["offset", "start", "pos", "align", "skip", "len", "rem", "struct_def", "r#type", "endianness", "data", "r#match", "n", "size", "bytes"]
ODDN = lambda j: ODD[j % len(ODD)] + ("" if j < len(ODD) else str(j))
NUMN = lambda j: "_%d" % j

def uses(fields, *names): return any(a["a"] in names for f in fields for a in f["attrs"])
def named_only(fields): return uses(fields, "Verify", "Debug")
def restring(x, how):
    """same definition, other syntax: "s" string form wherever there is an argument; "split" one attribute per line"""
    if how == "s":
        for f in x:
            for a in f["attrs"]:
                if a["a"] in ("Parse", "Count", "Cond", "Verify", "Map", "Take", "Tag", "Value", "LengthCount", "ErrorIf", "SkipBefore", "SkipAfter", "AlignBefore",
                              "AlignAfter", "Move", "MoveAbs", "PreExec", "PostExec", "SetEndian"): a["st"] = "s"
    else:
        for f in x: f["g"] = "split"
    return x

# contexts that do not turn missing data into something else
STREAM_CTX = ["named", "tuple", "ename", "etuple", "inname", "generr", "xargs", "nomle", "nombe", "big", "little", "setle", "endarg", "odd", "nested", "nested2",
              "callx", "exec", "split", "strsyn", "tail", "dbg", "built", "count", "gen", "edefault", "sub"]
ALL_CTX = STREAM_CTX + ["vec", "opt", "arr", "pair", "cplt", "ecplt", "exact"]

def mk_ctx(ctx, snip):
    """program for a snippet in a context; None when the combination is not expressible"""
    nm = ODDN if ctx == "odd" else NUMN if ctx in ("tuple", "etuple") else PLAIN
    fs = snip(nm)
    if not isinstance(fs, list): return None
    if nm is NUMN and named_only(fs): return None
    shape = "unnamed" if nm is NUMN else "named"
    if ctx in ("named", "odd", "tuple"): return prog(struct(fs, shape=shape))
    if ctx in ("ename", "etuple"):
        e = enum(U8, [variant("Z", plit(9), [F("z", U8)]), variant("A", plit(1), fs, shape=shape), variant("B", prange(2, 5), [F("b", U16), F("c", U8)], shape="named"), variant("U", plit(6))])
        return prog({"S": e}, "S", _args=[[[1]], [[1]], [[1]], [[2]], [[0]], [[6]]])
    if ctx == "edefault":
        e = enum(U16, [variant("D", WILD, fs, shape="named"), variant("A", plit(1), [F("z", U16)])])
        return prog({"S": e}, "S", _args=[[[0, 0]], [[0, 7]], [[1, 0]], [[0, 1]]])
    if ctx == "inname": return prog(struct(fs, InName("data_in")))
    if ctx == "generr": return prog(struct(fs, GENERR))
    if ctx == "xargs":
        return prog(struct([F("x0", U8)] + fs, Extra(("p", U8), ("q", U16))))
    if ctx == "nomle": return prog(struct(fs, drv="NomLE"))
    if ctx == "nombe": return prog(struct(fs, drv="NomBE"))
    if ctx == "big": return prog(struct(fs, BIG))
    if ctx == "little": return prog(struct(fs, LITTLE))
    if ctx == "setle": return prog(struct(fs, SetE(LE)))
    if ctx == "endarg": return prog(struct(fs, Extra(("en", ENDIAN)), SetE(evar("en"))))
    if ctx == "nested": return prog({"S": struct([F("pre", U8), F("s", D("T")), F("post", U16)]), "T": struct(fs)})
    if ctx == "nested2":
        return prog({"S": struct([F("p", U16), F("t", D("M")), F("q", U8)], BIG), "M": struct([F("_0", U8), F("_1", D("T"))], shape="unnamed"), "T": struct(fs)})
    if ctx == "callx":
        return prog({"S": struct([F("h", U8), F("t", D("T"), Parse(callx("T", [var("h"), lit(3)], "le"))), F("z", U8)]), "T": struct(fs, Extra(("h", U8), ("k", U16)))})
    if ctx == "exec": return prog(struct(fs, Pre(adv(1)), Pre(mk(900)), Post(mk(901))))
    if ctx == "built": return prog(struct(fs, Post(built(902)), Post(mk(903))))
    if ctx == "split": return prog(struct(restring(fs, "split"), g="split"))
    if ctx == "strsyn": return prog(struct(restring(fs, "s")))
    if ctx == "tail": return prog(struct([F("h", U8)] + fs + [F("z", U16), F("y", U8)]))
    if ctx == "dbg": return prog(struct(fs, DEBUG))
    if ctx == "count": return prog({"S": struct([F("h", U8), F("v", vec(D("T")), Count(var("h"))), F("z", U8)]), "T": struct(fs)}) if snip_sized(fs) else None
    if ctx == "vec": return prog({"S": struct([F("h", U8), F("v", vec(D("T")))]), "T": struct(fs)})
    if ctx == "opt": return prog({"S": struct([F("h", U8), F("o", opt(D("T"))), F("z", U8)]), "T": struct(fs)})
    if ctx == "arr": return prog({"S": struct([F("h", U8), F("o", arr(D("T"), 2))]), "T": struct(fs)})
    if ctx == "pair": return prog({"S": struct([F("o", vec(tup(U8, D("T"))))]), "T": struct(fs)})
    if ctx == "sub": return prog({"S": struct([F("h", U8), F("o", D("T"), Parse(psub(lit(6), pty(D("T"), "be")))), F("z", U8)]), "T": struct(fs)})
    if ctx == "cplt": return prog(struct(fs, COMPLETE))
    if ctx == "ecplt":
        e = enum(U8, [variant("A", plit(1), fs, shape="named"), variant("B", WILD, [F("_0", U32)])], COMPLETE)
        return prog({"S": e}, "S", _args=[[[1]], [[1]], [[0]]])
    if ctx == "exact": return prog(struct(fs, EXACT))
    if ctx == "gen":
        return prog({"S": struct([F("h", U8), F("g", D("T"))], gen=[{"n": "G0", "t": D("T")}], gpf={"g": "G0"}), "T": struct(fs)}) if False else None
    raise Exception(ctx)

def snip_sized(fs):
    """whether an element of this definition always consumes something (otherwise huge counts take forever)"""
    for f in fs:
        if uses([f], "Move", "MoveAbs", "PreExec"): return False
    for f in fs:
        if not uses([f], "Cond", "Count", "LengthCount", "Value", "Ignore", "Take", "Map", "Into", "Parse") and (f["t"]["k"] in NUMS or f["t"]["k"] in ("cus", "str")): return True
        if uses([f], "LengthCount"): return True
        if uses([f], "Tag"): return True
    return False

def cross(snips, ctxs, rng=None, limit=None):
    out = []
    for s in snips:
        for c in ctxs:
            p = mk_ctx(c, s)
            if p is not None:
                p["_ctx"] = c
                out.append(p)
    if limit and len(out) > limit:
        # keep every snippet and every context represented
        rng.shuffle(out)
        out = out[:limit]
    return out

def feats(p):
    """attributes and type kinds used by a program"""
    s = set()
    def walk(x):
        if isinstance(x, dict):
            if "a" in x and isinstance(x["a"], str): s.add(x["a"])
            if "k" in x and isinstance(x["k"], str): s.add("t:" + x["k"])
            for v in x.values(): walk(v)
        elif isinstance(x, list):
            for v in x: walk(v)
    walk(p["defs"])
    return s
def rnd(rng, n, *need, **o):
    """random programs that use at least one of the given features"""
    return random_programs(rng, n, (lambda p: feats(p) & set(need)) if need else None, **o)

# ------------------------------------------------------------------ snippets
def S(f): return f
def one(t, *attrs): return lambda n: [F(n(0), t, *[dict(a) for a in attrs])]
def lead(t, *attrs, lt=U8):     # preceded by a number the attributes may use (name given to a function)
    return lambda n: [F(n(0), lt), F(n(1), t, *[(a(n) if callable(a) else dict(a)) for a in attrs])]

def sn_prims(): return [one(T(k)) for k in NUMS]
def std_types(d=0):
    base = [U8, U16, U32, T("i16"), F32, CUSL, CUSB, STR]
    if d == 0: return base
    return base

ENDIAN_TYPES = [U16, U32, U64, U128, I16, I32, I64, I128, F32, F64, opt(U16), opt(U32), vec(U16), arr(U16, 2), arr(U32, 1), opt(tup(U16, U32)), vec(tup(U8, U16)), opt(vec(U16)),
                opt(opt(U16)), arr(arr(U16, 2), 1), arr(opt(U16), 2), CUSL, CUSB, STR, TRI, opt(TRI), vec(TRI), arr(TRI, 2), opt(tup(TRI, TRI)), vec(opt(TRI))]
ENDIAN_NESTED = [w(v(b)) for b in (U16, TRI) for v in (opt, vec, lambda x: arr(x, 2), lambda x: tup(U8, x), lambda x: tup(x, U16)) for w in (opt, vec, lambda x: arr(x, 2)) if not (v(b)["k"] == "tup" and w(b)["k"] == "arr")]
def wrap_endian(n):
    """one numeric type under each wrapper"""
    return [("cond", opt(U16), [Cond(tf(True))]), ("count", vec(U16), [Count(lit(2))]), ("lcount", vec(U16), [LCount(num("u8"))]), ("compl", U16, [COMPLETE]),
            ("map", U16, [Map(cv("id", ty="u16"))]), ("into", U16, [Into(cv("id"))]), ("verify", U16, [Verify(cmp_("ne", SELF, lit(9)))]), ("dbg", U16, [DEBUG]),
            ("condcount", opt(vec(U16)), [Cond(tf(True)), Count(lit(1))]), ("countcond", vec(opt(U16)), [Count(lit(1)), Cond(tf(True))]),
            ("dbgcompl", U32, [DEBUG, COMPLETE]), ("vercompl", I16, [Verify(cmp_("ne", SELF, lit(9))), COMPLETE]), ("cntarr", vec(arr(U16, 2)), [Count(lit(1))]),
            ("condopt", opt(opt(U16)), [Cond(tf(True))])]

UDIR = {"pos": [Pos("AlignBefore", lit(4)), Pos("AlignBefore", lit(3)), Pos("SkipBefore", lit(1)), Pos("SkipBefore", lit(2)), Pos("Move", neg(lit(1))), Pos("Move", lit(2)), Pos("MoveAbs", lit(3)), Pos("MoveAbs", lit(0)),
                Pos("AlignAfter", lit(4)), Pos("AlignAfter", lit(2)), Pos("SkipAfter", lit(1)), Pos("SkipAfter", lit(3)), Pos("SkipBefore", us(ILEN)), Pos("Move", isz(var("selector"))), Pos("SkipAfter", mod(var("selector"), 3))],
        "stmt": [Pre(mk(1)), Pre(mk(2)), Pre(adv(1)), Pre(rd("x", U8)), Post(mk(3)), Post(mk(4)), Post(adv(1)), Post(rd("y", U8)), Post(mv(5, "selector"))],
        "err": [ErrorIf(lg(6, gt(ILEN, lit(3)))), ErrorIf(lg(7, lt(ILEN, lit(2)))), ErrorIf(lg(8, eq(var("selector"), lit(3)))), ErrorIf(tf(True)), ErrorIf(lg(9, tf(False)))]}
def unitvars(rng, n, *kinds, tops=(), parse=0.5):
    """enums with a selector whose unit variants carry directives and statements, with and without a parser of their own: every
    single directive, then sequences"""
    out = []
    full = [x for q in kinds for x in UDIR[q]]; al = full + [x for q in UDIR for x in UDIR[q] if q not in kinds][::3]
    pfs = [num("u8"), num("u16"), ptake(lit(3)), num("u32", "le"), plog(12, num("u8")), pcond(gt(var("selector"), lit(2)), num("u8"))]
    seqs = [[x] for x in full] + [[x, Parse(num("u16"))] for x in full] + [[Parse(num("u8")), x] for x in full[::2]]
    while len(seqs) < n * 7 + 30:
        q = [dict(x) for x in rng.sample(al, rng.choice([1, 2, 2, 3, 4]))]
        if not any(x in full for x in q): continue
        if rng.random() < parse: q.insert(rng.randrange(len(q) + 1), Parse(rng.choice(pfs)))
        seqs.append(q)
    for j in range(0, len(seqs), 7):
        vs = [variant("V%d" % i, plit(i), [], *[dict(x) for x in q], last=rng.random() < 0.3) for i, q in enumerate(seqs[j:j + 7])]
        if rng.random() < 0.3: vs[0] = variant("V0", WILD, [], *[dict(x) for x in seqs[j]])
        vs.insert(rng.randrange(len(vs) + 1), variant("F", plit(9), [F("_0", U16)]))
        if rng.random() < 0.3:
            for v in vs: v["g"] = "split"
        e = enum(U8, vs, *[dict(x) for x in rng.choice([[], [], [InName("data")], [COMPLETE], [LITTLE], [GENERR], [Pre(mk(20)), Post(mk(21))], [Pre(adv(1)), EXACT]] + list(tops))])
        sels = list(range(8)) + [9, 9, 200]
        out.append(prog({"S": e}, "S", _n=0, _grid=[(list(range(50, 50 + l)), [[v]]) for v in sels for l in ((0, 1, 2, 3, 4, 6, 9) if v < 8 else (0, 3))]))
        if rng.random() < 0.4 and not has(e, "GenericErrors"):
            out.append(prog({"E": e, "S": struct([F("t", U8), F("o", U8), F("v", D("E"), Parse(callx("E", [var("t")]))), F("z", U8)])}, "S", _n=0, _grid=[([v, 7] + list(range(50, 50 + l)), []) for v in sels for l in (0, 2, 4, 7)]))
    return out

def c01(rng, k):
    out = []
    # many fields, of every standard type, named and not
    pool = [U8, U16, U32, U64, T("i8"), T("i16"), T("i32"), F32, F64, U128, opt(U8), arr(U8, 2), STR, CUSL, CUSB, TRI, D("In"), D("K"), D("P")]
    sub = {"In": struct([F("x", U8), F("y", U16)]), "K": fieldless("u8", [0, 1, 2, 3]), "P": struct([F("_0", U8), F("_1", U8)], shape="unnamed")}
    def sub_of(fs):
        return {x["t"]["d"]: sub[x["t"]["d"]] for x in fs if x["t"]["k"] == "def"}
    for j in range(24 * k):
        nf = rng.choice([1, 2, 3, 4, 5, 7, 9, 12, 16])
        for shape in ("named", "unnamed"):
            fs = [F("f%d" % i, rng.choice(pool)) for i in range(nf)]
            a = [rng.choice([BIG, LITTLE])] if rng.random() < 0.3 else []
            out.append(prog(dict(sub_of(fs), S=struct(fs, *a, shape=shape))))
        fs = [F("f%d" % i, rng.choice(pool)) for i in range(min(nf, 6))]
        sh = rng.choice(["named", "unnamed"])
        e = enum(U8, [variant("A", plit(0), [F("q", U8)]), variant("B", plit(1), fs, shape=sh), variant("C", plit(2)), variant("D", WILD, [F("r", U16), F("s", D("In"))], shape="named")])
        out.append(prog(dict({"In": sub["In"]}, **dict(sub_of(fs), S=e)), "S", _args=[[[0]], [[1]], [[1]], [[1]], [[2]], [[3]]]))
    # invocation order observed by logging parsers, with a failure at each position
    for nf in (2, 3, 5):
        for bad in [None] + list(range(nf)):
            for hard in (False, True):
                if bad is None and hard: continue
                def fs(n):
                    return [F(n(i), U8, Parse(plog(i + 1, num("u8") if i != bad else perr(hard)))) for i in range(nf)]
                out += cross([fs], ["named", "tuple", "ename", "etuple", "nested", "inname", "vec", "opt", "cplt", "generr", "callx", "built"])
    # empty shapes
    for sh in ("unit", "named", "unnamed"):
        out.append(prog(struct([], shape=sh)))
        out.append(prog({"S": struct([F("a", U8), F("u", D("T")), F("b", U8)]), "T": struct([], shape=sh)}))
        out.append(prog({"S": enum(U8, [variant("A", plit(0), [], shape=sh), variant("B", plit(1), [F("x", U8)]), variant("C", WILD, [], shape=sh)])}, "S"))
        out.append(prog(struct([], Pre(mk(1)), Post(built(2)), Post(mk(3)), shape=sh)))
    # fields of the same type must not be swapped, values of different nesting kept apart
    out += cross([lambda n: [F(n(i), U8) for i in range(4)], lambda n: [F(n(0), U8), F(n(1), vec(U8), Count(var(n(0)))), F(n(2), U8), F(n(3), SLICE, Take(var(n(2)))), F(n(4), U16)],
                  lambda n: [F(n(0), U8), F(n(1), opt(U16), Cond(gt(var(n(0)), lit(1)))), F(n(2), SLICE, Tag([1])), F(n(3), U8)],
                  lambda n: [F(n(i), U8) for i in range(11)],
                  lambda n: [F(n(0), STR), F(n(1), U8)], lambda n: [F(n(0), opt(U32)), F(n(1), U8), F(n(2), vec(U16))],
                  lambda n: [F(n(0), U8, Pos("SkipAfter", lit(1))), F(n(1), U8, Pos("AlignBefore", lit(4))), F(n(2), U8)]], ALL_CTX)
    out += rnd(rng, 150 * k)
    return out

def c02(rng, k):
    out = []
    tdecl = [("un", [], "Nom"), ("be", [BIG], "Nom"), ("le", [LITTLE], "Nom"), ("nbe", [], "NomBE"), ("nle", [], "NomLE"), ("sbe", [SetE(BE)], "Nom"), ("sle", [SetE(LE)], "Nom"),
             ("sarg", [Extra(("en", ENDIAN)), SetE(evar("en"))], "Nom"), ("scond", [SetE(eite(gt(ILEN, lit(6))), id=77)], "Nom")]
    fdecl = [[], [BIG], [LITTLE], [SetE(BE)], [SetE(LE)]]
    subs = {"In": struct([F("x", U16), F("y", U8)]), "Be": struct([F("x", U16)], BIG), "Le": struct([F("x", U16)], drv="NomLE"), "K": fieldless("u16", [1, 256, 2]),
            "Kl": fieldless("u16", [1, 256, 2], LITTLE), "Two": struct([F("_0", D("In")), F("_1", opt(D("Le")))], shape="unnamed")}
    def pack(types):
        need = {}
        def w(t):
            if t["k"] == "def":
                need[t["d"]] = subs[t["d"]]
                for f in subs[t["d"]]["fields"]: w(f["t"])
            for q in ("t", "a", "b"):
                if isinstance(t.get(q), dict): w(t[q])
        for t in types: w(t)
        return need
    alltypes = ENDIAN_TYPES + rng.sample(ENDIAN_NESTED, 16) + [D("In"), D("Be"), D("Le"), D("K"), D("Kl"), D("Two"), opt(D("In")), vec(D("In")), arr(D("In"), 2), opt(tup(D("In"), D("K"))), vec(tup(U16, D("Be")))]
    # every type x declaration on the field x declaration on the type
    for t in alltypes:
        for tn, ta, drv in tdecl:
            for fa in fdecl:
                if fa and fa[0]["a"] == "SetEndian" and ta and ta[0]["a"] in ("BigEndian", "LittleEndian"): continue
                if fa and fa[0]["a"] == "SetEndian" and drv != "Nom": continue
                if tn == "scond" and fa and rng.random() < 0.5: continue
                if rng.random() > 0.34 * k: continue
                last = t["k"] == "vec"
                fs = [F("a", U16), F("b", t, *fa)] + ([] if last else [F("c", U16)])
                out.append(prog(dict(pack([t]), S=struct(fs, *ta, drv=drv, shape=rng.choice(["named", "unnamed"]))), _n=5, _all=True))
    # wrappers
    for tn, ta, drv in tdecl:
        for fa in fdecl:
            if fa and fa[0]["a"] == "SetEndian" and (drv != "Nom" or (ta and ta[0]["a"] in ("BigEndian", "LittleEndian"))): continue
            ws = wrap_endian(None)
            rng.shuffle(ws)
            for g in (ws[:5], ws[5:10], ws[10:]):
                fs = []
                for j, (_, t, a) in enumerate(g):
                    at = list(a)
                    at.insert(rng.randrange(len(at) + 1), dict(fa[0])) if fa and (fa[0]["a"] != "SetEndian" or rng.random() < 0.5) else None
                    fs.append(F("f%d" % j, t, *at))
                out.append(prog(struct(fs, *ta, drv=drv), _n=6, _all=True))
                out.append(prog({"S": enum(U8, [variant("A", WILD, fs, shape="named")], *ta, drv=drv)}, "S", _n=4, _all=True))
    # SetEndian on a field: this one and all the following, not the previous ones, not the next variant, not nested ordered types
    for order in itertools.product([None, "be", "le"], repeat=3):
        fs = [F("f0", U16)] + [F("f%d" % (j + 1), t, *([SetE(BE if o == "be" else LE)] if o else [])) for j, (o, t) in enumerate(zip(order, [U16, U32, D("In")]))] + [F("g", U16), F("h", U16, BIG), F("z", U16)]
        for ctx in ("struct", "enum", "arg"):
            if ctx == "struct": out.append(prog(dict(pack([D("In")]), S=struct(fs)), _n=4, _all=True))
            elif ctx == "enum":
                out.append(prog(dict(pack([D("In")]), S=enum(U8, [variant("A", plit(0), fs, shape="named"), variant("B", WILD, [F("_0", U16), F("_1", U32)])])), "S", _n=6, _all=True, _args=[[[0]], [[1]]]))
            else: out.append(prog(dict(pack([D("In")]), S=struct(fs, Extra(("en", ENDIAN)), SetE(evar("en")))), _n=4, _all=True))
    # data-driven byte order
    for e in (eite(eq(var("f0"), lit(0))), eite(gt(var("f0"), lit(1)))):
        out.append(prog(struct([F("f0", U8), F("f1", U16, SetE(e, id=5)), F("f2", vec(U16), Count(lit(2))), F("f3", opt(U32)), F("f4", U16, LITTLE)]), _n=20, _all=True))
        out.append(prog(dict(pack([D("Two")]), S=struct([F("f0", U8), F("f1", D("Two"), SetE(e)), F("f2", U64)])), _n=16, _all=True))
        out.append(prog({"S": enum(U8, [variant("A", plit(0), [F("_0", U8), F("_1", U16, SetE(eite(gt(var("_0"), lit(1))))), F("_2", U16)]), variant("B", WILD, [F("_0", U16), F("_1", U16)])])}, "S", _n=12, _all=True))
    # selector enums of every order inside structs of every order
    for tn, ta, drv in tdecl[:5]:
        for e in ("be", "le", "parse"):
            en = enum(U8, [variant("A", plit(0), [F("_0", U16)]), variant("B", WILD, [F("x", U32), F("y", opt(U16))], shape="named")], *ta, drv=drv)
            re = "parse" if e == "parse" else None
            out.append(prog({"E": en, "S": struct([F("t", U8), F("v", D("E"), Parse(callx("E", [var("t")], "be" if re else e, re=re))), F("w", U16)])}, _n=10, _all=True))
    # fieldless enums of every representation and order
    for r in ("u8", "u16", "u32", "u64", "i16", "i32", "i64"):
        for at, drv in (([], "Nom"), ([BIG], "Nom"), ([LITTLE], "Nom"), ([], "NomBE"), ([], "NomLE")):
            out.append(prog(fieldless(r, [1, 100, 2], *at, drv=drv), _n=5, _all=True))
            out.append(prog({"K": fieldless(r, [1, 100, 2], *at, drv=drv), "S": struct([F("a", D("K")), F("b", opt(D("K"))), F("c", D("K"), LITTLE)], BIG)}, _n=3, _all=True))
    out += rnd(rng, 120 * k, "BigEndian", "LittleEndian", "SetEndian", terminals=False)
    return out

def num_corners(w):
    r = []
    for v in (0, 1, 2, 0x7f, 0x80, 0xff, (1 << (8 * w - 1)) - 1, 1 << (8 * w - 1), (1 << (8 * w)) - 1, (1 << (8 * w)) - 2, 0x0102030405060708090a0b0c0d0e0f10 & ((1 << (8 * w)) - 1)):
        b = list((v & ((1 << (8 * w)) - 1)).to_bytes(w, "big"))
        r += [b, b[::-1]]
    return r
FLOATS32 = [b"\x7f\xc0\x00\x01", b"\xff\xc0\x00\x01", b"\x7f\x80\x00\x00", b"\xff\x80\x00\x00", b"\x80\x00\x00\x00", b"\x00\x00\x00\x01", b"\x7f\xa0\x00\x00", b"\x3f\x80\x00\x00", b"\x01\x00\x80\x7f"]
UTF8S = [[], [0x41], [0xc3, 0xa9], [0xe6, 0x97, 0xa5], [0xf0, 0x9f, 0x98, 0x80], [0xff], [0xc0, 0x80], [0xc1, 0xbf], [0xe0, 0x9f, 0x80], [0xe0, 0xa0, 0x80], [0xed, 0x9f, 0xbf], [0xed, 0xa0, 0x80],
         [0xf0, 0x8f, 0x80, 0x80], [0xf0, 0x90, 0x80, 0x80], [0xf4, 0x8f, 0xbf, 0xbf], [0xf4, 0x90, 0x80, 0x80], [0xf5, 0x80, 0x80, 0x80], [0x80], [0xc3], [0xe6, 0x97], [0xf0, 0x9f, 0x98],
         [0x41, 0xc3, 0x28], [0, 0, 0], [0xef, 0xbf, 0xbf], [0xef, 0xbb, 0xbf, 0x41]]
def c03(rng, k):
    out = []
    for t in NUMS:
        w = W[t]
        inp = num_corners(w) + [x + [7, 8] for x in num_corners(w)[:6]] + [[1] * j for j in range(w)] + ([list(x) for x in FLOATS32] if t == "f32" else []) + \
              ([list(x) + [0, 0, 0, 9] for x in FLOATS32] + [[9, 0, 0, 0] + list(x) for x in FLOATS32] if t == "f64" else [])
        out.append(prog({"S": typ(T(t))}, "S", _inputs=inp, _all=True, _n=4))
        out.append(prog(struct([F("a", T(t)), F("b", U8)]), _inputs=[x + [3] for x in inp], _n=2, _all=True))
    strs = [list(len(u).to_bytes(4, "big")) + u for u in UTF8S] + [list(len(u).to_bytes(4, "big")) + u + [0x42, 0x43] for u in UTF8S] + [list(len(u).to_bytes(4, "little")) + u + [1] for u in UTF8S[:8]] + \
           [[0xff] * 4 + [1, 2], [0, 0, 1, 0] + [65] * 30, [0, 0, 0, 30] + [65] * 30, [0, 0, 0], []]
    for p in (prog({"S": typ(STR)}, "S"), prog(struct([F("s", STR), F("t", U8)])), prog({"S": typ(opt(STR))}, "S"), prog({"S": typ(vec(STR))}, "S"), prog(struct([F("s", STR, LITTLE)])), prog({"S": typ(arr(STR, 2))}, "S")):
        p.update(_inputs=strs + [a + b for a, b in zip(strs, strs[3:])], _n=6, _all=True); out.append(p)
    for l in ("u8", "u16", "u32", "u64", "tl"):
        w = W.get(l, 2)
        inp = [[0, 1, 7], [1, 0, 7], [1, 9, 7]] if l == "tl" else []
        for n in (0, 1, 2, 3, 5):
            for e in ("big", "little"):
                for extra in (-1, 0, 1, 3):
                    inp.append(list(n.to_bytes(w, e)) + [9, 8, 7, 6, 5, 4, 3, 2][:max(0, n + extra)])
        inp += [[0xff] * j for j in range(w + 2)] + [[0] * j for j in range(w + 2)] + [[0x80] + [0] * (w - 1) + [1, 2, 3]]
        for t in (ld(l), opt(ld(l)), vec(ld(l)), tup(U8, ld(l)), arr(ld(l), 2)):
            out.append(prog({"S": typ(t)}, "S", _inputs=inp, _all=True, _n=3))
    # nestings
    base = [U8, U16, F32, CUSL, CUSB, TRI, STR, ld("u8")]
    n1 = [f(t) for t in base for f in (opt, vec, lambda x: arr(x, 1), lambda x: arr(x, 3), lambda x: tup(U8, x), lambda x: tup(x, U16))]
    n2 = [f(t) for t in n1 for f in (opt, vec, lambda x: arr(x, 2), lambda x: tup(x, U8), lambda x: tup(U16, x))]
    for t in n1: out.append(prog({"S": typ(t)}, "S", _n=10, _prefix=2))
    for t in rng.sample(n2, min(len(n2), 70 * k)): out.append(prog({"S": typ(t)}, "S", _n=8, _prefix=1))
    for N in (0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 32, 33, 40):
        out.append(prog({"S": typ(arr(U8, N))}, "S", _inputs=[list(range(1, j + 1)) for j in range(0, 46, 3)] + [list(range(1, N + d + 1)) for d in (-1, 0, 1) if N + d >= 0], _n=1))
        if 1 < N < 17: out.append(prog({"S": typ(arr(U16, N))}, "S", _inputs=[[5] * j for j in (2 * N - 1, 2 * N, 2 * N + 1, N)], _n=3))
    # as fields: what comes after sees the right place
    ft = [t for t in n1 if t["k"] not in ("tup",) and not (t["k"] == "arr" and t["t"]["k"] == "tup") and "ld" not in json.dumps(t)]
    for t in ft: out.append(prog(struct([F("h", U8), F("f", t), F("z", U8)]), _n=8, _prefix=1))
    # a hand-written type with only the default entry point, and derived types as items
    for t in (CUSL, CUSB, opt(CUSL), vec(CUSB), arr(CUSL, 2), tup(CUSB, CUSL), TRI, opt(TRI), vec(TRI), arr(TRI, 2), tup(TRI, TRI), vec(arr(TRI, 2)), opt(vec(TRI)), tup(opt(TRI), arr(TRI, 1))):
        out.append(prog({"S": typ(t)}, "S", _n=10, _all=True))
    for t in (opt(D("In")), vec(D("In")), arr(D("In"), 2), opt(D("Ver")), vec(D("Ver")), vec(D("K")), opt(D("K")), arr(D("K"), 3), vec(opt(D("Ver"))), opt(D("Fail")), vec(D("Fail")), vec(D("Tg")), opt(vec(D("Ver")))):
        sub = {"In": struct([F("x", U8), F("y", U16)]), "Ver": struct([F("v", U8, Verify(lt(SELF, lit(4)))), F("w", U8)]), "K": fieldless("u8", [0, 1, 3]),
               "Fail": struct([F("a", U8), F("b", U8, Parse(pcond(gt(var("a"), lit(1)), perr(True)))) if False else F("b", opt(U8), Cond(gt(var("a"), lit(1))), Parse(perr(True)))]), "Tg": struct([F("g", SLICE, Tag([1, 2])), F("x", U8)])}
        names = [x for x in sub if '"d": "%s"' % x in json.dumps(t)]
        for d in (struct([F("h", U8), F("f", t)]), struct([F("f", t), F("z", U8)])):
            out.append(prog(dict({x: sub[x] for x in names}, S=d), _n=16, _prefix=2))
    # the same types, read from another input type
    for p in list(out):
        j = json.dumps(p["defs"])
        if p["defs"]["S"]["kind"] == "type" and not any(x in j for x in ('"str"', '"cus"', '"def"', '"rs"')) and rng.random() < 0.6: out.append(dict(p, inp="cust"))
    return out

# streaming snippets
def streaming_snips():
    return [lambda n: [F(n(0), U8), F(n(1), U16), F(n(2), U32)],
            lambda n: [F(n(0), U64), F(n(1), T("i8")), F(n(2), F32)],
            lambda n: [F(n(0), U8), F(n(1), vec(U16), Count(var(n(0)))), F(n(2), U8)],
            lambda n: [F(n(0), vec(U16), LCount(num("u8"))), F(n(1), U8)],
            lambda n: [F(n(0), U8), F(n(1), SLICE, Take(var(n(0)))), F(n(2), U16)],
            lambda n: [F(n(0), SLICE, Tag([1, 2, 3])), F(n(1), U8)],
            lambda n: [F(n(0), U8), F(n(1), opt(U32), Cond(gt(var(n(0)), lit(2)))), F(n(2), U8)],
            lambda n: [F(n(0), STR), F(n(1), U16)],
            lambda n: [F(n(0), SLICE, Parse(pldata("u16", "le"))), F(n(1), U8)],
            lambda n: [F(n(0), U8, Verify(cmp_("ne", SELF, lit(3)))), F(n(1), U16, Verify(lt(SELF, lit(300))))],
            lambda n: [F(n(0), U8), F(n(1), U16, ErrorIf(gt(var(n(0)), lit(4)))), F(n(2), U8)],
            lambda n: [F(n(0), U8), F(n(1), U8, Pos("SkipBefore", var(n(0)))), F(n(2), U8, Pos("SkipAfter", lit(2)))],
            lambda n: [F(n(0), U8), F(n(1), U16, Pos("AlignBefore", lit(4))), F(n(2), U8, Pos("AlignAfter", lit(8))), F(n(3), U8)],
            lambda n: [F(n(0), U8), F(n(1), U8, Pos("Move", isz(var(n(0))))), F(n(2), U16)],
            lambda n: [F(n(0), U8), F(n(1), U16, Pos("MoveAbs", var(n(0)))), F(n(2), U8)],
            lambda n: [F(n(0), U16), F(n(1), U8, Pos("Move", neg(lit(1)))), F(n(2), U32, Pos("MoveAbs", lit(3)))],
            lambda n: [F(n(0), U16, Map(cv("id", ty="u16"))), F(n(1), U32, Into(cv("wide", n=3)), Parse(num("u8"))), F(n(2), U8)],
            lambda n: [F(n(0), U8), F(n(1), U8, Value(var(n(0)))), F(n(2), PHANTOM), F(n(3), U16, IGN), F(n(4), U16)],
            lambda n: [F(n(0), U8, Pre(rd("k", U16)), Post(rd("l", U8)), Post(mv(1, "k"))), F(n(1), SLICE, Take(mod(var("l"), 4)))],
            lambda n: [F(n(0), U16, Parse(num("u16", "le"))), F(n(1), U8, Parse(plog(3, num("u8"))))],
            lambda n: [F(n(0), CUSL), F(n(1), CUSB), F(n(2), U128)],
            lambda n: [F(n(0), U8), F(n(1), vec(vec(U8)), Count(lit(2)), Count(var(n(0)))), F(n(2), U8)],
            lambda n: [F(n(0), U8), F(n(1), opt(vec(U16)), Cond(gt(var(n(0)), lit(0))), LCount(num("u8")))],
            lambda n: [F(n(0), U8), F(n(1), vec(U8), Map(cv("tovec")), Parse(pldata("u8")))],
            lambda n: [F(n(0), U32, DEBUG), F(n(1), vec(U16), DEBUG, Count(lit(2)))],
            lambda n: [F(n(0), vec(STR), Count(lit(2))), F(n(1), U8)],
            lambda n: [F(n(0), U8, Pos("SkipBefore", lit(3)), Pos("AlignBefore", lit(4)), Pos("SkipAfter", lit(1)), Pos("AlignAfter", lit(4))), F(n(1), U16)]]
STREAM_BAD_KINDS = {"t:vecinf"}
def is_streaming(p):
    f = feats(p)
    if f & {"Complete", "Exact"}: return False
    s = json.dumps(p["defs"])
    if '"op": "ilen"' in s or '"p": "rest"' in s or '"s": "adv"' in s or '"s": "win"' in s or '"s": "mk"' in s or '"p": "lg"' in s: return False
    def fields_ok(d):
        for x in list(d.get("fields", [])) + [y for v in d.get("variants", []) for y in v.get("fields", [])]:
            t = x["t"]
            term = any(a["a"] in ("Take", "Tag", "Parse", "Value", "Ignore") for a in x["attrs"])
            cnt = sum(a["a"] in ("Cond", "Count", "LengthCount") for a in x["attrs"])
            for _ in range(cnt): t = t["t"]
            j = json.dumps(t) + json.dumps([a.get("f") for a in x["attrs"]])
            if not any(a["a"] in ("Ignore", "Value") for a in x["attrs"]) and ('"k": "opt"' in j or '"k": "arr"' in j or ('"k": "vec"' in j and not term)): return False
        return True
    return all(fields_ok(d) for d in p["defs"].values())
def lasts(rng):
    """every type as the last thing in the input, which ends with it, before it or within it"""
    out = []
    pad = [1, 2, 3, 4, 5, 6]
    for t in [T(k) for k in NUMS] + [STR, CUSL, CUSB, TRI] + [ld(w) for w in ("u8", "u16", "u32", "u64")] + [opt(ld("u16")), arr(ld("u16"), 2), arr(U16, 2), tup(U8, U32)]:
        w = W.get(t.get("k"), W.get(t.get("l"), 4 if t["k"] == "str" else 2))
        ins = [[0] * n for n in range(0, min(18, w + 3))]
        for v in (1, 2, 5):
            for e in ("big", "little"):
                b = list(v.to_bytes(w, e)) + [0x61] * v
                ins += [b[:n] for n in range(w - 1, len(b) + 2)]
        a = rng.choice([(), (SetE(BE),), (SetE(LE),), (LITTLE,), (BIG,), (COMPLETE,)])
        out.append(prog({"S": typ(t)}, "S", _n=0, _all=True, _inputs=ins))
        if '"ld"' in json.dumps(t): a = (Parse(pty(t, rng.choice(["be", "le"]))),); base = a
        else: base = ()
        if t["k"] == "tup": t = opt(t)
        for at in {json.dumps(x): x for x in (base, a)}.values():
            sh = rng.choice(["named", "unnamed"])
            out.append(prog({"S": struct([F("a", t, *at)], shape=sh)}, "S", _n=0, _all=True, _inputs=ins))
    return out
def c04(rng, k):
    out = cross(streaming_snips(), STREAM_CTX)
    for p in out: p.update(_n=2, _prefix=2)
    out += lasts(rng)
    es = [prog({"S": fieldless(r, [1, 2, 300 if r != "u8" else 30])}, "S", _n=6, _prefix=3) for r in ("u8", "u16", "u32", "u64")]
    r = random_programs(rng, 150 * k, is_streaming, streaming=True, complete=False)
    for p in r: p.update(_n=3, _prefix=3)
    return out + es + r

def with_attr(p, fn):
    q = json.loads(json.dumps(p)); fn(q); return q
def c05(rng, k):
    out = []
    inner = [lambda n, c: [F(n(0), U8), F(n(1), U32, *c), F(n(2), U16)],
             lambda n, c: [F(n(0), U8), F(n(1), vec(U16), *c, Count(var(n(0)))), F(n(2), U8)],
             lambda n, c: [F(n(0), U8), F(n(1), vec(U16), Count(var(n(0))), *c), F(n(2), U8)],
             lambda n, c: [F(n(0), vec(U16), *c, LCount(num("u8"))), F(n(1), U8)],
             lambda n, c: [F(n(0), vec(U16), LCount(num("u8")), *c), F(n(1), U8)],
             lambda n, c: [F(n(0), U8), F(n(1), SLICE, *c, Take(var(n(0)))), F(n(2), U16)],
             lambda n, c: [F(n(0), SLICE, *c, Tag([1, 2, 3])), F(n(1), U8)],
             lambda n, c: [F(n(0), U8), F(n(1), opt(U32), *c, Cond(gt(var(n(0)), lit(2)))), F(n(2), U8)],
             lambda n, c: [F(n(0), U8), F(n(1), opt(U32), Cond(gt(var(n(0)), lit(2))), *c), F(n(2), U8)],
             lambda n, c: [F(n(0), STR, *c), F(n(1), U16)],
             lambda n, c: [F(n(0), opt(U16), *c), F(n(1), U16)],
             lambda n, c: [F(n(0), U8), F(n(1), arr(U16, 2), *c), F(n(2), U8)],
             lambda n, c: [F(n(0), SLICE, *c, Parse(pldata("u8"))), F(n(1), U8)],
             lambda n, c: [F(n(0), U16, *c, Verify(cmp_("ne", SELF, lit(3)))), F(n(1), U8)],
             lambda n, c: [F(n(0), U16, Verify(cmp_("ne", SELF, lit(3))), *c), F(n(1), U8)],
             lambda n, c: [F(n(0), U8), F(n(1), U16, *c, ErrorIf(gt(var(n(0)), lit(4))), Pos("SkipBefore", var(n(0))), Pos("AlignAfter", lit(4))), F(n(2), U8)],
             lambda n, c: [F(n(0), U8), F(n(1), U16, Pos("Move", isz(var(n(0)))), *c, Pos("SkipAfter", lit(2))), F(n(2), U16)],
             lambda n, c: [F(n(0), U32, *c, Into(cv("wide", n=2)), Parse(num("u16"))), F(n(1), U16, Map(cv("id", ty="u16")), *c, Parse(num("u16", "le")))],
             lambda n, c: [F(n(0), U8), F(n(1), U8, *c, Parse(plog(4, num("u8")))), F(n(2), U16, *c, Parse(psub(var(n(0)), num("u16"))))],
             lambda n, c: [F(n(0), U8, *c, Parse(perr(True)))], lambda n, c: [F(n(0), U8, *c, Parse(perr(False)))],
             lambda n, c: [F(n(0), U32, *c, DEBUG), F(n(1), U16, DEBUG, *c)],
             lambda n, c: [F(n(0), CUSL, *c), F(n(1), U64, *c, BIG), F(n(2), U16, LITTLE, *c)],
             lambda n, c: [F(n(0), U8), F(n(1), PHANTOM, *c), F(n(2), U8, Value(var(n(0)))), F(n(3), U16, *c, IGN), F(n(4), U16)],
             lambda n, c: [F(n(0), U8, Pre(rd("k", U16)), *c, Post(rd("l", U8))), F(n(1), U16, *c)]]
    ctx = ["named", "tuple", "ename", "etuple", "edefault", "inname", "generr", "nomle", "setle", "nested", "vec", "opt", "arr", "callx", "odd", "cplt", "ecplt", "sub", "exact", "tail", "split"]
    for s in inner:
        for c in ([COMPLETE], []):
            out += cross([lambda n, s=s, c=c: s(n, [dict(x) for x in c])], ctx if c else ["cplt", "ecplt", "named", "ename"])
    for p in out: p.update(_n=2, _prefix=2)
    # type level, on enums of both kinds
    for r in ("u8", "u16", "u32", "u64", "i16"):
        for at, drv in (([COMPLETE], "Nom"), ([COMPLETE, LITTLE], "Nom"), ([], "Nom"), ([COMPLETE], "NomBE")):
            out.append(prog(fieldless(r, [0, 1, 7], *at, drv=drv), _n=4, _prefix=3))
            out.append(prog({"S": struct([F("a", U8), F("k", D("K")), F("z", U8)]), "K": fieldless(r, [0, 1, 7], *at, drv=drv)}, _n=3, _prefix=2))
    for at in ([COMPLETE], []):
        for t in (U8, U16):
            vs = [variant("A", plit(0), [F("_0", U16), F("_1", U16)]), variant("B", plit(1), [F("x", U32), F("y", SLICE, Take(lit(3)))], shape="named"), variant("C", plit(2)),
                  variant("P", plit(3), [], Parse(num("u16"))), variant("Q", plit(4), [], Parse(ptake(lit(3)))), variant("W", WILD, [F("_0", D("N"))])]
            out.append(prog({"S": enum(t, vs, *at), "N": struct([F("a", U8), F("b", U16)])}, "S", _args=[[[0] * (W[t["k"]] - 1) + [v]] for v in range(6)], _n=10, _prefix=6))
            out.append(prog({"S": struct([F("t", t), F("e", D("E"), Parse(callx("E", [var("t")]))), F("z", U8)]), "E": enum(t, vs, *at), "N": struct([F("a", U8), F("b", U16)])}, _n=8, _prefix=4))
    out += unitvars(rng, 5 * k, "pos", tops=[[COMPLETE], [COMPLETE, LITTLE], [COMPLETE], [COMPLETE, GENERR]], parse=0.9)
    # a Complete type around streaming types and the other way round
    for a in ([COMPLETE], []):
        for b in ([COMPLETE], []):
            out.append(prog({"S": struct([F("a", U8), F("n", D("N")), F("m", vec(D("N")), Count(lit(2)))], *a), "N": struct([F("x", U8), F("y", U16)], *b)}, _n=4, _prefix=4))
    r = rnd(rng, 120 * k, "Complete")
    for p in r: p.update(_prefix=2)
    return out + r

def chains(maxlen, rng, limit, full=0):
    """well-typed sequences of wrapping attributes, inside out: (type, attributes)"""
    terms = [(U16, []), (U8, [Parse(num("u8"))]), (SLICE, [Take(lit(2))]), (SLICE, [Tag([1])]), (U8, []), (U16, [Parse(num("u16", "le"))]), (SLICE, [Parse(pldata("u8"))])]
    def wraps(t, a):
        r = [(opt(t), [Cond(gt(var("a0"), lit(1)))]), (vec(t), [Count(var("a0"))]), (vec(t), [LCount(num("u8"))]), (t, [COMPLETE]), (t, [DEBUG])]
        k = t["k"]
        if k in ("u8", "u16"): r.append((t, [Verify(lg(60, cmp_("ne", SELF, lit(2))))]))
        if k in ("vec", "slice"): r.append((t, [Verify(cmp_("ne", SLEN, lit(1)))]))
        if k == "u8": r += [(t, [Map(cv("inc8", id=50))]), (U16, [Map(cv("dbl8"))])]
        if k == "u16" and a and a[-1]["a"] == "Parse": r += [(U8, [Map(cv("hi16", id=51))])]
        if k == "slice": r += [(vec(U8), [Map(cv("tovec", id=52))]), (USIZE, [Map(cv("len"))])]
        if k == "u8": r += [(U16, [Into(cv("wide", n=1))]), (U32, [Into(cv("wide", n=3))])]
        if k == "u16": r += [(U32, [Into(cv("wide", n=2))])]
        if k in ("u8", "u16"): r.append((t, [Into(cv("id"))]))
        return r
    out = []
    level = [(t, a) for t, a in terms]
    for L in range(maxlen):
        nxt = []
        for t, a in level:
            for t2, w in wraps(t, a):
                # the derive infers inner types by peeling the container of the field's own type: value-changing wrappers must have a terminal below,
                # and their type must not be needed by a Count/Cond below them
                if w[0]["a"] in ("Map", "Into") and any(x["a"] in ("Cond", "Count", "LengthCount") for x in a): continue
                # what is converted into follows from the place right above
                if next((x["a"] for x in a if x["a"] not in ("Complete", "Debug")), "") == "Into" and w[0]["a"] in ("Into", "Verify"): continue
                if w[0]["a"] in ("Map", "Into") and not (a and a[-1]["a"] in ("Parse", "Take", "Tag")): continue
                if w[0]["a"] == "Verify" and any(x["a"] == "Map" for x in a): continue
                if w[0]["a"] in ("Map", "Into") and t2 != t and any(x["a"] == "Verify" for x in a): continue    # the condition is given the field's type
                nxt.append((t2, w + a))
        out += nxt if L < full or len(nxt) <= limit else rng.sample(nxt, limit)
        level = nxt if L < full or len(nxt) <= limit else rng.sample(nxt, 3 * limit)
    return out
def c06(rng, k):
    out = []
    cs = chains(4, rng, 150 * k, 2)
    for j, (t, a) in enumerate(cs):
        fs = lambda n, t=t, a=a: [F("a0", U8), F("b", t, *[dict(x) for x in a]), F("c", U8)]
        for c in [["named"], ["split"], ["strsyn"], ["named"]][j % 4]: out += cross([fs], [c])
    # same list written on one line, split, in strings: all three for a sample
    for t, a in rng.sample(cs, min(len(cs), 40 * k)):
        fs = lambda n, t=t, a=a: [F("a0", U8), F("b", t, *[dict(x) for x in a]), F("c", U8)]
        out += cross([fs], ["named", "split", "strsyn", "ename", "setle", "inname", "nomle", "cplt", "generr" if not any(x["a"] == "Debug" for x in a) else "named"])
    # what follows the final parser has no influence
    after = [COMPLETE, DEBUG, Count(lit(3)), Cond(tf(False)), Verify(tf(False)), Map(cv("inc8", id=9)), LCount(num("u8")), Take(lit(4)), Tag([9]), Parse(num("u32")), Value(lit(7)), IGN]
    for (t, term) in ((SLICE, Tag([1])), (SLICE, Take(lit(2))), (U8, Parse(num("u8"))), (U8, Value(lit(3))), (U8, IGN)):
        for x in after:
            out += cross([lambda n, t=t, term=term, x=x: [F(n(0), U8), F(n(1), t, dict(term), dict(x)), F(n(2), U8)]], ["named"])
        for x, y in ((COMPLETE, Count(lit(2))), (BIG, Tag([3]))):
            out += cross([lambda n, t=t, term=term, x=x, y=y: [F(n(0), t, dict(x), dict(term), dict(y)), F(n(2), U8)]], ["named", "tuple"])
    # position of byte-order / positional attributes inside the list does not matter to the parser, but their own order does
    for a in itertools.permutations([Count(lit(2)), LITTLE, Pos("SkipBefore", lit(1)), Cond(gt(var("a0"), lit(1)))]):
        ty_ = opt(vec(U16)) if [x["a"] for x in a].index("Cond") < [x["a"] for x in a].index("Count") else vec(opt(U16))
        out += cross([lambda n, a=a, ty_=ty_: [F("a0", U8), F("b", ty_, *[dict(x) for x in a])]], ["named"])
    for a in itertools.permutations([Pos("SkipBefore", lit(1)), Pos("AlignBefore", lit(4)), ErrorIf(lg(8, gt(ILEN, lit(6)))), Pre(mk(5))]):
        out += cross([lambda n, a=a: [F("a0", U8), F("b", U16, *[dict(x) for x in a])]], ["named", "split"][:1 + (k > 1)])
    for p in out: p.setdefault("_n", 5)
    out += rnd(rng, 150 * k, "Cond", "Count", "LengthCount", "Map", "Into", wrap=0.95)
    return out

ITEMS = [U8, U16, U32, F32, opt(U8), arr(U8, 2), STR, CUSL, TRI, tup(U8, U16), D("In"), D("K"), D("Ver"), D("Tg"), T("i64"), U128]
SUBS = {"In": struct([F("x", U8), F("y", U16)]), "Ver": struct([F("v", U8, Verify(lt(SELF, lit(4)))), F("w", U8)]), "K": fieldless("u8", [0, 1, 3]), "Tg": struct([F("g", SLICE, Tag([1, 2])), F("x", U8)])}
def withsubs(fs_or_d, t): return {x: SUBS[x] for x in SUBS if '"d": "%s"' % x in json.dumps(t)}
def c07(rng, k):
    out = []
    # count expressions of every integer type
    for it in INTS + ["usize"]:
        for item in rng.sample([x for x in ITEMS if x["k"] != "tup" and (x["k"] != "opt" or it == "u8")], 4):   # an absent option takes no room: huge counts of them only take long
            if it == "usize":
                fs = [F("h", U8), F("n", USIZE, Parse(num("u8")), ) ]
                continue
            d = struct([F("n", T(it)), F("v", vec(item), Count(var("n"))), F("z", U8)])
            out.append(prog(dict(withsubs(d, item), S=d), _n=8))
            d = struct([F("n", T(it)), F("v", SLICE, Take(var("n"))), F("z", U8)], shape="named")
            out.append(prog(d, _n=6))
    exprs = [lambda n: var(n), lambda n: add(us(var(n)), lit(1)), lambda n: mul(us(var(n)), lit(2)), lambda n: mod(var(n), 3), lambda n: sub(us(add(var(n), lit(0)) if False else us(var(n))), us(mod(var(n), 2))),
             lambda n: ite(gt(var(n), lit(2)), lit(3), lit(0)), lambda n: lit(0), lambda n: lit(2), lambda n: us(var(n)), lambda n: add(us(var(n)), us(var(n)))]
    for e in exprs:
        for item in (U8, U16, STR, opt(U16), arr(U8, 2), CUSB):
            out += cross([lambda n, e=e, item=item: [F(n(0), U8), F(n(1), vec(item), Count(e(n(0)))), F(n(2), U8)]], rng.sample(["named", "tuple", "ename", "etuple", "inname", "nested", "setle", "odd", "xargs", "callx", "opt", "cplt", "generr", "strsyn"], 4))
        out += cross([lambda n, e=e: [F(n(0), U8), F(n(1), SLICE, Take(e(n(0)))), F(n(2), U8)]], ["named", "tuple", "etuple", "nested", "vec", "opt", "cplt", "strsyn", "odd", "inname"])
    # input length, arguments, earlier collections as counts
    out += cross([lambda n: [F(n(0), U8), F(n(1), vec(U8), Count(ILEN)), F(n(2), U8)], lambda n: [F(n(0), U8), F(n(1), SLICE, Take(ILEN))], lambda n: [F(n(0), U8), F(n(1), vec(U16), Count(sub(add(us(ILEN), lit(8)), lit(8))))],
                  lambda n: [F(n(0), U8), F(n(1), vec(U8), Count(mod(var(n(0)), 4))), F(n(2), vec(U16), Count(vlen(n(1)))), F(n(3), U8)],
                  lambda n: [F(n(0), vec(U8), LCount(num("u8"))), F(n(1), SLICE, Take(vlen(n(0)))), F(n(2), U8)]], ["named", "tuple", "ename", "nested", "inname", "sub", "callx", "setle"])
    for at in (U8, U16, U32, U64, I8, I32, USIZE):
        out.append(prog(struct([F("v", vec(U16), Count(var("n"))), F("z", U8)], Extra(("n", at)), shape=rng.choice(["named", "unnamed"])), _n=10))
        out.append(prog(struct([F("v", SLICE, Take(var("n"))), F("z", U8)], Extra(("n", at))), _n=8))
        if at is not USIZE: out.append(prog({"S": enum(at, [variant("A", plit(1), [F("_0", vec(U8), Count(var("selector")))]), variant("B", WILD, [F("v", SLICE, Take(var("selector")))], shape="named")])}, "S", _n=10))
    # length parsers
    for w in ("u8", "u16", "u32", "u64"):
        for e in ("be", "le"):
            for item in rng.sample([x for x in ITEMS if x["k"] not in ("tup", "opt")], 3 + k):
                d = struct([F("v", vec(item), LCount(num(w, e))), F("z", U8)], shape="named")
                out.append(prog(dict(withsubs(d, item), S=d), _n=6))
    out += cross([lambda n: [F(n(0), vec(vec(U8)), LCount(num("u8")), LCount(num("u8"))), F(n(1), U8)], lambda n: [F(n(0), vec(U16), LCount(num("u8")), Parse(num("u16", "le"))), F(n(1), U8)],
                  lambda n: [F(n(0), vec(vec(U16)), LCount(num("u8")), Count(lit(2)))], lambda n: [F(n(0), U8), F(n(1), vec(vec(U8)), Count(var(n(0))), LCount(num("u8"))), F(n(2), U8)],
                  lambda n: [F(n(0), U8), F(n(1), vec(vec(U8)), Count(lit(2)), Count(var(n(0)))), F(n(2), U8)], lambda n: [F(n(0), vec(SLICE), LCount(num("u8")), Take(lit(2)))],
                  lambda n: [F(n(0), U8), F(n(1), vec(SLICE), Count(lit(2)), Tag([1]))], lambda n: [F(n(0), U8), F(n(1), vec(U8), Count(lit(3)), Parse(plog(7, num("u8")))), F(n(2), U8)],
                  lambda n: [F(n(0), U8), F(n(1), vec(U8), Count(var(n(0))), Verify(lg(3, lt(SELF, lit(3)))))], lambda n: [F(n(0), U8), F(n(1), vec(opt(U8)), Count(lit(2)), Cond(gt(var(n(0)), lit(1)))), F(n(2), U8)],
                  lambda n: [F(n(0), U8), F(n(1), opt(vec(U8)), Cond(gt(var(n(0)), lit(1))), Count(var(n(0)))), F(n(2), U8)], lambda n: [F(n(0), U8), F(n(1), vec(U8), Count(lit(2)), Parse(perr(False)))],
                  lambda n: [F(n(0), U8), F(n(1), vec(U8), Count(mod(var(n(0)), 2)), Parse(perr(True)))], lambda n: [F(n(0), U8), F(n(1), vec(U8), Map(cv("tovec")), Take(var(n(0)))), F(n(2), USIZE, Map(cv("len")), Take(lit(2)))],
                  lambda n: [F(n(0), U8), F(n(1), vec(U16), COMPLETE, Count(var(n(0)))), F(n(2), U8)], lambda n: [F(n(0), U8), F(n(1), vec(U16), Count(var(n(0))), COMPLETE), F(n(2), U8)]],
                 ["named", "tuple", "ename", "etuple", "inname", "nested", "setle", "cplt", "opt", "vec", "callx", "generr", "strsyn", "exact"])
    # arrays
    for N in (1, 2, 3, 5, 9, 20):
        for item in (U8, U16, opt(U8), D("Ver"), D("K"), D("Tg"), STR):
            d = struct([F("h", U8), F("v", arr(item, N)), F("z", U8)])
            out.append(prog(dict(withsubs(d, item), S=d), _n=6, _inputs=[[1] * j for j in (N, N + 1, N + 2, 2 * N + 2)] + [[1, 2, 3, 4] * N]))
    r = rnd(rng, 100 * k, "Count", "LengthCount", "Take", "t:arr")
    return out + r

def conds(n):
    return [lambda n: gt(var(n(0)), lit(2)), lambda n: eq(var(n(0)), lit(1)), lambda n: tf(True), lambda n: tf(False), lambda n: bor(eq(var(n(0)), lit(0)), gt(var(n(0)), lit(3))), lambda n: bnot(cmp_("le", var(n(0)), lit(1))),
            lambda n: gt(ILEN, lit(3)), lambda n: band(gt(ILEN, lit(2)), cmp_("ne", var(n(0)), lit(2)))]
def c08(rng, k):
    out = []
    inners = [(U16, []), (U32, []), (STR, []), (opt(U8), []), (arr(U8, 2), []), (CUSL, []), (SLICE, [Take(lit(2))]), (SLICE, [Tag([1, 2])]), (vec(U16), [Count(lit(2))]), (vec(U8), [LCount(num("u8"))]), (U8, [Parse(num("u8"))]),
              (U8, [Verify(lt(SELF, lit(3)))]), (U16, [COMPLETE]), (U16, [DEBUG]), (U8, [Parse(perr(False))]), (U8, [Parse(perr(True))]), (U8, [Parse(plog(5, num("u8")))]), (U8, [Value(lit(4))]), (U32, [IGN]), (opt(U8), [Cond(gt(ILEN, lit(1)))]),
              (SLICE, [Parse(pldata("u8"))]), (vec(U8), [])]
    allc = ["named", "tuple", "ename", "etuple", "inname", "nested", "setle", "cplt", "opt", "vec", "callx", "generr", "strsyn", "split", "odd", "exact", "tail", "nomle"]
    for t, a in inners:
        for c in rng.sample(conds(None), 4):
            al = rng.choice([{}, {"al": "If"}])
            s = lambda n, t=t, a=a, c=c, al=al: [F(n(0), U8), F(n(1), opt(t), Cond(c(n), **al), *[dict(x) for x in a]), F(n(2), U8)]
            out += cross([s], rng.sample(allc, 4 + k))
    for t, a in inners + [(vec(opt(U16)), [Count(lit(2))]), (opt(opt(U16)), []), (opt(tup(U8, U16)), []), (opt(STR), []), (opt(vec(U8)), []), (arr(opt(U8), 2), []), (T("i64"), []), (F64, []), (U128, [])]:
        s = lambda n, t=t, a=a: [F(n(0), U8), F(n(1), opt(t), Cond(gt(var(n(0)), lit(1))), *[dict(x) for x in a])]
        ps = cross([s], ["named"] + rng.sample(allc, 2))
        for p in ps: p.update(_n=6, _prefix=3)
        out += ps
    # conditions on everything that has been decoded
    out += cross([lambda n: [F(n(0), opt(U8)), F(n(1), opt(U16), Cond(is_some(n(0)))), F(n(2), opt(U8), Cond(is_some(n(1)))), F(n(3), U8)],
                  lambda n: [F(n(0), U8), F(n(1), opt(U16), Cond(gt(var(n(0)), lit(1)))), F(n(2), opt(U8), Cond(bnot(is_some(n(1))))), F(n(3), U8)],
                  lambda n: [F(n(0), vec(U8), LCount(num("u8"))), F(n(1), opt(U8), Cond(gt(vlen(n(0)), lit(1)))), F(n(2), U8)],
                  lambda n: [F(n(0), T("i8")), F(n(1), opt(U8), Cond(lt(var(n(0)), lit(0)))), F(n(2), U8)],
                  lambda n: [F(n(0), U8), F(n(1), opt(U32), Pos("SkipBefore", lit(1)), Cond(eq(var(n(0)), lit(1))), Pos("SkipAfter", lit(1))), F(n(2), U8)],
                  lambda n: [F(n(0), U8), F(n(1), opt(U32), Pre(mk(1)), Cond(lg(2, eq(var(n(0)), lit(1)))) if False else Cond(eq(var(n(0)), lit(1))), Post(mk(3))), F(n(2), U8)],
                  lambda n: [F(n(0), U8), F(n(1), opt(vec(U8)), Cond(eq(var(n(0)), lit(1))), Count(lit(2))), F(n(2), vec(opt(U8)), Count(lit(2)), Cond(gt(var(n(0)), lit(1)))), F(n(3), U8)]], allc)
    # given values, defaults, markers
    vals = [lambda n: [F(n(0), U8), F(n(1), U8, Value(var(n(0)))), F(n(2), U16, Value(lit(513))), F(n(3), U8)],
            lambda n: [F(n(0), U16), F(n(1), U32, Value(add(lit(70000), lit(2)))), F(n(2), U8, Value(lit(255)))],
            lambda n: [F(n(0), U8), F(n(1), BOOL, Value(gt(var(n(0)), lit(1)))), F(n(2), U8)],
            lambda n: [F(n(0), U8), F(n(1), vec(U8), Count(lit(2))), F(n(2), vec(U8), Value(var(n(1))), vclone=1) if False else F(n(2), U16, Value(lit(1))), F(n(3), USIZE, Value(vlen(n(1)))), F(n(4), U8)],
            lambda n: [F(n(0), U8), F(n(1), USIZE, Value(ILEN)), F(n(2), U8)],
            lambda n: [F(n(0), U16, IGN), F(n(1), opt(U8), IGN), F(n(2), vec(U16), IGN), F(n(3), STR, IGN), F(n(4), U8), F(n(5), F64, A("Ignore", al="Default")), F(n(6), tup(U8, BOOL), IGN) if False else F(n(6), BOOL, IGN)],
            lambda n: [F(n(0), PHANTOM), F(n(1), U8), F(n(2), PHANTOM), F(n(3), {"k": "phantom", "t": STR})],
            lambda n: [F(n(0), U8), F(n(1), U8, Pos("SkipBefore", lit(1)), Value(lit(9)), Pos("SkipAfter", lit(1))), F(n(2), U16, IGN, Pos("AlignAfter", lit(4))), F(n(3), U8)],
            lambda n: [F(n(0), U8), F(n(1), U8, COMPLETE, Value(lit(9))), F(n(2), U16, COMPLETE, IGN), F(n(3), PHANTOM, Pos("SkipBefore", lit(1)))],
            lambda n: [F(n(0), U8, IGN), F(n(1), U8, Value(lit(3))), F(n(2), PHANTOM)],
            lambda n: [F(n(0), U8), F(n(1), arr(opt(U16), 2), IGN), F(n(2), arr(vec(U8), 3), IGN), F(n(3), arr(arr(opt(U8), 1), 2), IGN), F(n(4), U16)],
            lambda n: [F(n(0), U8), F(n(1), arr(U8, 3), IGN), F(n(2), arr(U16, 2), IGN), F(n(3), I64, Value(neg(lit(5)))), F(n(4), opt(U8), Cond(gt(var(n(0)), lit(1))), Value(lit(6)))]]
    out += cross(vals, allc + ["arr", "pair", "count", "built"])
    # every type, by default and absent
    every = [T(x) for x in NUMS] + [BOOL, USIZE, STR, T("char"), opt(U8), opt(opt(U16)), vec(U8), vec(vec(U16)), arr(U8, 2), arr(I64, 2), opt(vec(U8)), arr(vec(U8), 1), vec(STR), opt(STR)]
    for t in every:
        out += cross([lambda n, t=t: [F(n(0), U8), F(n(1), t, IGN), F(n(2), U8), F(n(3), t, A("Ignore", al="Default")), F(n(4), U16)]], ["named"] + rng.sample(allc, 1))
        if t["k"] in ("usize", "bool", "char"): continue
        out += cross([lambda n, t=t: [F(n(0), U8), F(n(1), opt(t), Cond(eq(var(n(0)), lit(1)))), F(n(2), U8), F(n(3), opt(t), IGN)]], ["named"] + rng.sample(allc, 1))
    r = rnd(rng, 110 * k, "Cond", "Value", "Ignore", "t:phantom")
    for p in out + r: p.setdefault("_prefix", 1); p.setdefault("_n", 5)
    return out + r

def c09(rng, k):
    out = []
    allc = ["named", "tuple", "ename", "etuple", "edefault", "inname", "nested", "nested2", "setle", "cplt", "opt", "vec", "arr", "callx", "generr", "strsyn", "split", "odd", "exact", "tail", "nomle", "exec", "sub", "count", "xargs", "pair"]
    al = [1, 2, 3, 4, 5, 8, 16]
    # single directives
    for d in ("AlignBefore", "AlignAfter"):
        for a in al:
            s = lambda n, d=d, a=a: [F(n(0), U8), F(n(1), U16, Pos(d, lit(a))), F(n(2), U8)]
            out += cross([s], rng.sample(allc, 5 + k) + (["nested", "tuple", "etuple"] if a == 4 else []))
            s = lambda n, d=d, a=a: [F(n(0), U8), F(n(1), SLICE, Take(var(n(0)))), F(n(2), U8, Pos(d, lit(a))), F(n(3), U8)]
            out += cross([s], rng.sample(allc, 3))
    for d in ("SkipBefore", "SkipAfter"):
        for e in (lambda n: lit(0), lambda n: lit(1), lambda n: lit(3), lambda n: var(n(0)), lambda n: add(us(var(n(0))), lit(1)), lambda n: mod(var(n(0)), 3), lambda n: us(ILEN), lambda n: ite(gt(var(n(0)), lit(1)), lit(2), lit(0))):
            s = lambda n, d=d, e=e: [F(n(0), U8), F(n(1), U16, Pos(d, e(n))), F(n(2), U8)]
            out += cross([s], rng.sample(allc, 5 + k))
    for e in [lambda n, v=v: lit(v) for v in (0, 1, 2, 5)] + [lambda n, v=v: neg(lit(v)) for v in (1, 2, 3, 4)] + [lambda n: isz(var(n(0))), lambda n: sub(isz(var(n(0))), lit(2)), lambda n: var(n(0)), lambda n: neg(isz(var(n(0)))), lambda n: ite(gt(var(n(0)), lit(1)), lit(1), neg(lit(1)))]:
        s = lambda n, e=e: [F(n(0), U8), F(n(1), U16), F(n(2), U8, Pos("Move", e(n))), F(n(3), U8)]
        out += cross([s], rng.sample(allc, 5 + k))
    for e in [lambda n, v=v: lit(v) for v in (0, 1, 2, 3, 6)] + [lambda n: var(n(0)), lambda n: us(var(n(0))), lambda n: add(us(var(n(0))), lit(1)), lambda n: us(ILEN)]:
        s = lambda n, e=e: [F(n(0), U8), F(n(1), U16), F(n(2), U8, Pos("MoveAbs", e(n))), F(n(3), U8)]
        out += cross([s], rng.sample(allc, 5 + k))
    # offsets of every integer type, extreme values included
    for it in INTS:
        for d in ("SkipBefore", "SkipAfter", "Move", "MoveAbs"):
            fs = [F("n", T(it)), F("a", U8, Pos(d, var("n"))), F("b", U8)]
            out.append(prog(struct(fs, shape="named"), _n=10, _hostile=True))
        out.append(prog({"S": struct([F("h", U8), F("t", D("T")), F("z", U8)]), "T": struct([F("n", T(it)), F("a", U8, Pos("Move", var("n"))), F("b", U16, Pos("MoveAbs", var("n")))])}, _n=10, _hostile=True))
    # sequences of directives on one field, before and after
    pre = [Pos("AlignBefore", lit(4)), Pos("SkipBefore", lit(1)), Pos("Move", neg(lit(1))), Pos("MoveAbs", lit(3)), Pos("AlignBefore", lit(3)), Pos("SkipBefore", lit(2)), Pos("Move", lit(2))]
    post = [Pos("AlignAfter", lit(4)), Pos("SkipAfter", lit(1)), Pos("AlignAfter", lit(3)), Pos("SkipAfter", lit(2))]
    seqs = [(a, b) for a in pre for b in pre if a is not b] + [(a, b) for a in post for b in post if a is not b] + [(a, b) for a in pre for b in post] + [(b, a) for a in pre for b in post]
    for a, b in rng.sample(seqs, min(len(seqs), 70 * k)):
        s = lambda n, a=a, b=b: [F(n(0), U8), F(n(1), U8, dict(a), dict(b)), F(n(2), U8)]
        out += cross([s], rng.sample(allc, 2))
    for _ in range(60 * k):
        m = [dict(rng.choice(pre + post)) for _ in range(3)]; m2 = [dict(rng.choice(pre + post)) for _ in range(rng.choice([0, 1, 2]))]
        s = lambda n, m=m, m2=m2: [F(n(0), U16), F(n(1), U8, *[dict(x) for x in m]), F(n(2), U16, *[dict(x) for x in m2]), F(n(3), U8)]
        out += cross([s], rng.sample(allc, 1))
    # on every kind of field
    kinds = [(SLICE, [Take(lit(2))]), (SLICE, [Tag([1])]), (vec(U8), [Count(var("a0"))]), (vec(U16), [LCount(num("u8"))]), (opt(U8), [Cond(gt(var("a0"), lit(1)))]), (U8, [Value(lit(1))]), (U8, [IGN]), (PHANTOM, []), (STR, []), (U8, [Parse(num("u8"))]), (opt(U16), []), (U32, [COMPLETE]), (U8, [DEBUG]), (U8, [Verify(lt(SELF, lit(5)))])]
    for t, a in kinds:
        for ds in ([Pos("AlignBefore", lit(4))], [Pos("AlignAfter", lit(4))], [Pos("SkipBefore", lit(1)), Pos("SkipAfter", lit(2))], [Pos("Move", neg(lit(1))), Pos("AlignAfter", lit(2))], [Pos("MoveAbs", lit(2))]):
            mix = list(ds); [mix.insert(rng.randrange(len(mix) + 1), None) for _ in range(0)]
            at = [dict(x) for x in (ds + a if rng.random() < 0.5 else a + ds)]
            s = lambda n, t=t, at=at: [F("a0", U8), F("b", t, *[dict(x) for x in at]), F("c", U8)]
            out += cross([s], rng.sample(["named", "ename", "nested", "inname", "sub", "vec", "opt"], 2))
    # unit variants and their directives
    out.append(prog({"S": enum(U8, [variant("A", plit(0), [], Pos("SkipBefore", lit(2))), variant("B", plit(1), [], Pos("SkipAfter", lit(1)), Parse(num("u8"))), variant("C", plit(2), [], Pos("AlignAfter", lit(4)), Parse(num("u8"))), variant("E", plit(3), [], Pos("MoveAbs", lit(2)), Pos("Move", neg(lit(1)))), variant("D", WILD, [F("_0", U8, Pos("AlignBefore", lit(4)))])], Pre(adv(1)))}, "S", _args=[[[v]] for v in range(5)], _n=20, _prefix=5))
    out += unitvars(rng, 8 * k, "pos")
    # alignment by earlier values, at every offset
    for a in (1, 2, 3, 4, 7, 8):
        s = lambda n, a=a: [F(n(0), vec(U8), LCount(num("u8"))), F(n(1), U8, Pos("AlignBefore", lit(a))), F(n(2), U8, Pos("AlignAfter", lit(a)))]
        for p in cross([s], ["named", "nested", "ename"]):
            p["_inputs"] = [[j] + list(range(100, 100 + m)) for j in range(0, 9) for m in (j + 1, j + 10, 2 * j + 9)]
            if p["_ctx"] == "nested": p["_inputs"] = [[5] + x + [1, 1] for x in p["_inputs"]]
            out.append(p)
    out += cross([lambda n: [F(n(0), U8), F(n(1), U8, Pos("AlignBefore", add(us(mod(var(n(0)), 5)), lit(1)))), F(n(2), U8, Pos("AlignAfter", add(us(mod(var(n(0)), 3)), lit(2)))), F(n(3), U8)]], allc)
    r = rnd(rng, 130 * k, "AlignBefore", "AlignAfter", "SkipBefore", "SkipAfter", "Move", "MoveAbs")
    for p in out: p.setdefault("_n", 4); p.setdefault("_prefix", 1)
    return out + r

def c10(rng, k):
    out = []
    def pats(t, rng):
        lo = 0 if t["k"][0] == "u" else -3
        c = rng.random()
        if c < 0.35: return plit(rng.choice([lo, 1, 2, 3, 4, 5, 200 if t["k"] != "i8" else 100]))
        if c < 0.5: a, b = sorted([rng.choice([lo, 1, 2, 3]), rng.choice([2, 3, 5, 100])]); return prange(a, b)
        if c < 0.6: return pfrom(rng.choice([2, 4, 100]))
        if c < 0.8: return por(*[plit(rng.choice([0, 1, 2, 3, 4, 7])) if rng.random() < 0.7 else prange(5, 9) for _ in range(rng.choice([2, 3]))])
        if c < 0.9: return pat_at("y", por(plit(1), prange(3, 6)))
        return pbind("y")
    def guard(p, t, rng, sc):
        x = "y" if p["p"] in ("bind", "at") and rng.random() < 0.7 else "selector"
        return rng.choice([lambda: cmp_(rng.choice(["gt", "lt", "ne", "eq"]), var(x), lit(rng.choice([1, 2, 3, 4]))), lambda: eq(mod(var(x), 2), lit(0)), lambda: tf(rng.random() < 0.5), lambda: gt(var(sc[0]), lit(1)) if sc else gt(var(x), lit(0)),
                           lambda: bor(eq(var(x), lit(1)), gt(var(x), lit(3)))])()
    sels = {"u8": [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 99, 100, 101, 199, 200, 201, 254, 255, 127, 128], "u16": [0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 100, 200, 255, 256, 257, 512, 65535], "u32": [0, 1, 2, 3, 4, 5, 7, 9, 100, 200, 256, 65536, 65537, 16777217], "i8": [0, 1, 2, 3, 4, 5, 7, 100, 127, -1, -2, -3, -4, -128],
            "i16": [0, 1, 2, 3, 4, 5, 7, 100, -1, -3, -300], "u64": [0, 1, 2, 3, 5, 7, 100, 200, 256, 65536], "i32": [0, 1, 2, 3, 4, 5, 100, -1, -2, -3, -4, 70000]}
    bodies = lambda j: [[], [F("_0", U8)], [F("_0", U16), F("_1", U8)], [F("x", U8), F("y_", opt(U16), Cond(gt(var("x"), lit(1))))], [F("_0", vec(U8), LCount(num("u8")))]][j]
    for j in range(110 * k):
        t = rng.choice([U8, U8, U8, U16, U32, I8, I16, U64, I32])
        nv = rng.choice([1, 2, 3, 4, 5, 7])
        dflt = rng.choice([-1, -1] + list(range(nv)) * 2)
        extra = rng.random() < 0.25
        vs = []
        for v in range(nv):
            p = WILD if v == dflt else pats(t, rng)
            g = None
            if v != dflt and (p["p"] == "bind" or rng.random() < 0.3): g = guard(p, t, rng, ["k"] if extra else [])
            if v != dflt and g is None and rng.random() < 0.06: p, g = WILD, guard(WILD, t, rng, ["k"] if extra else [])
            b = bodies(rng.randrange(5))
            sh = "unit" if not b and rng.random() < 0.6 else ("named" if (b and b[0]["n"] == "x") or rng.random() < 0.2 else "unnamed")
            if sh == "named": b = [dict(f, n="x%d" % q if f["n"][0] == "_" else f["n"]) for q, f in enumerate(b)]
            at = []
            if sh == "unit" and rng.random() < 0.4: at = [Parse(rng.choice([num("u8"), num("u16"), ptake(lit(2))]))]
            vs.append(variant("V%d" % v, p, b, *at, shape=sh, guard=g, st=rng.choice([None, None, "s"]), last=rng.random() < 0.3))
        at = ([Extra(("k", U8))] if extra else []) + rng.choice([[], [], [], [COMPLETE], [LITTLE], [InName("input")], [GENERR], [Pre(mk(1))], [Pre(adv(1)), Post(built(4))]])
        e = enum(t, vs, *at, drv="Nom")
        if rng.random() < 0.2: e["attrs"][0]["st"] = "s"
        argsets = [[list((s & ((1 << (8 * W[t["k"]])) - 1)).to_bytes(W[t["k"]], "big"))] + ([[rng.choice([0, 1, 2])]] if extra else []) for s in sels[t["k"]]]
        inputs = [[], [2, 3, 4, 5, 6], [0], [1, 2], [9, 0, 1, 0, 3, 4, 5]]
        p = prog({"S": e}, "S", _n=0, _grid=[(i, a) for a in argsets for i in rng.sample(inputs, 2)])
        out.append(p)
        if rng.random() < 0.35 and t["k"] in ("u8", "u16", "u32") and not has(e, "GenericErrors"):
            args = [var("t")] + ([lit(2)] if extra else [])
            out.append(prog({"E": e, "S": struct([F("t", t), F("v", D("E"), Parse(callx("E", args, rng.choice(["be", "le"])))), F("z", U8)])}, _n=10))
    # default first / middle / last with overlapping and shadowed arms, exhaustively over u8 selectors
    for perm in itertools.permutations([variant("D", WILD, [F("_0", U8)]), variant("A", plit(1), [F("_0", U16)]), variant("B", prange(1, 4), []), variant("C", por(plit(4), plit(200)), [F("_0", U8), F("_1", U8)])]):
        e = enum(U8, list(perm))
        out.append(prog({"S": e}, "S", _n=0, _grid=[([7, 8, 9], [[s]]) for s in list(range(0, 8)) + [199, 200, 201, 255]] + [([], [[s]]) for s in (0, 1, 4)]))
    for perm in itertools.permutations([variant("A", plit(1), [F("_0", U16)]), variant("B", prange(1, 4), []), variant("C", por(plit(3), plit(5)), [F("_0", U8)])]):
        out.append(prog({"S": enum(U8, list(perm))}, "S", _n=0, _grid=[([7, 8, 9], [[s]]) for s in range(0, 8)] + [([], [[s]]) for s in (0, 1, 3, 5)]))
    # full selector range
    e = enum(U8, [variant("A", prange(0, 15), [F("_0", U8)]), variant("B", por(plit(16), prange(32, 40), plit(255)), [F("_0", U16)]), variant("C", pbind("y"), [], guard=eq(mod(var("y"), 5), lit(0))), variant("D", pfrom(200))])
    out.append(prog({"S": e}, "S", _n=0, _grid=[([1, 2, 3], [[s]]) for s in range(256)] + [([], [[s]]) for s in range(0, 256, 5)]))
    # other selector types: options, pairs, newtypes, bool, char
    out.append(prog({"S": enum(opt(U8), [variant("A", {"p": "some", "q": plit(1)}, [F("_0", U8)]), variant("B", {"p": "some", "q": prange(2, 9)}, []), variant("N", {"p": "flat", "v": [0], "rs": "None"}, [F("_0", U16)])])}, "S", _n=0,
                    _grid=[([1, 2, 3], [a]) for a in ([0], [1, 0], [1, 1], [1, 2], [1, 9], [1, 10], [1, 255])] + [([], [a]) for a in ([0], [1, 1], [1, 10])]))
    out.append(prog({"S": enum(BOOL, [variant("A", {"p": "flat", "v": [1], "rs": "true"}, [F("_0", U8)]), variant("B", {"p": "flat", "v": [0], "rs": "false"}, [F("_0", U16)])])}, "S", _n=0, _grid=[([1, 2, 3], [[0]]), ([1, 2, 3], [[1]]), ([1], [[0]]), ([1], [[1]])]))
    out.append(prog({"S": enum(tup(U8, U8), [variant("A", {"p": "flat", "v": [1, 2], "rs": "(1, 2)"}, [F("_0", U8)]), variant("D", WILD, [F("_0", U16)]), variant("B", {"p": "flat", "v": [3, 4], "rs": "(3, 4)"}, [])])}, "S", _n=0,
                    _grid=[([1, 2, 3], [a]) for a in ([1, 2], [1, 3], [3, 4], [0, 0])]))
    out.append(prog({"M": struct([F("_0", U8)], shape="unnamed", flat1=1, norm=1, der=["Debug", "PartialEq", "Eq", "Clone", "Copy"]),
                     "S": enum(D("M"), [variant("A", {"p": "flat", "v": [1], "rs": "M(1)"}, [F("_0", U8)]), variant("B", {"p": "or", "ps": [{"p": "flat", "v": [2], "rs": "M(2)"}, {"p": "flat", "v": [5], "rs": "M(5)"}]}, [F("_0", U16)])])}, "S", _n=0,
                    _grid=[([1, 2, 3], [[a]]) for a in range(8)]))
    out += unitvars(rng, 3 * k, "pos", "stmt")
    # the selector is itself a fieldless enum (decoded or not)
    for t, st in (("u8", None), ("u16", "s")):
        KD = fieldless(t, [1, 2, 5, 9], flat1=1)
        kp = lambda j: {"p": "flat", "v": [j], "rs": "K::V%d" % j}
        for vs in ([variant("A", kp(1), [F("_0", U16)], st=st), variant("B", {"p": "or", "ps": [kp(0), kp(3)]}, [F("x", U8)], shape="named", st=st)], [variant("D", WILD, [F("_0", U8)]), variant("A", kp(2), [F("_0", U16)], st=st), variant("B", pbind("y"), [], guard=eq(var("y"), {"e": "flat", "v": [0], "rs": "K::V0"})) if False else variant("B", kp(0), [])],
                   [variant("A", kp(j), [F("_0", U8)] * (j % 2), st=st) if False else variant("A%d" % j, kp(j), [F("_0", U8)] if j % 2 else [], st=st) for j in range(4)]):
            out.append(prog({"S": enum(D("K"), vs), "K": dict(KD, norm=1)}, "S", _n=0, _grid=[([1, 2, 3], [[a]]) for a in range(4)] + [([], [[a]]) for a in range(4)]))
            out.append(prog({"E": enum(D("K"), vs), "K": KD, "S": struct([F("k", D("K")), F("e", D("E"), Parse(callx("E", [var("k")]))), F("z", U8)])}, "S", _n=8, _prefix=2))
    # the same patterns in other spellings: bytes, ranges of bytes, parentheses, constants, characters
    for st in (None, "s"):
        vs = [variant("A", {"p": "or", "ps": [plit(97), prange(99, 102)], "rs": "b'a' | b'c'..=b'f'"}, [F("_0", U8)], st=st), variant("B", {"p": "range", "lo": 48, "hi": 57, "rs": "(b'0'..=b'9')"}, [F("_0", U16)], st=st), variant("C", {"p": "or", "ps": [plit(0x20), plit(10)], "rs": "0x20 | 0b1010"}, [], st=st),
              variant("E", {"p": "lit", "n": 255, "rs": "u8::MAX"}, [], st=st), variant("G", {"p": "at", "x": "y", "q": prange(60, 70), "rs": "y @ 60 ..= 70"}, [F("_0", U8)], guard=eq(mod(var("y"), 2), lit(0)), st=st), variant("H", {"p": "range", "lo": 0, "hi": 9, "rs": "..=9u8"}, [F("_0", U32)], st=st), variant("I", {"p": "range", "lo": 200, "hi": 209, "rs": "200..210"}, [], st=st)]
        out.append(prog({"S": enum(U8, vs)}, "S", _n=0, _grid=[([1, 2, 3, 4, 5], [[v]]) for v in range(256)] + [([], [[v]]) for v in range(0, 256, 7)]))
    return out + rnd(rng, 60 * k, "Selector")

def c11(rng, k):
    out = []
    rs = ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"]
    attrs_ = [([], "Nom"), ([BIG], "Nom"), ([LITTLE], "Nom"), ([], "NomBE"), ([], "NomLE"), ([COMPLETE], "Nom"), ([InName("z")], "Nom"), ([GENERR], "Nom"), ([Pre(mk(1)), Post(built(2))], "Nom"), ([EXACT], "Nom"), ([Pre(adv(1))], "Nom")]
    for r in rs:
        w = W[r]; bits = 8 * w; signed = r[0] == "i"
        mx = (1 << (bits - 1)) - 1 if signed else (1 << bits) - 1
        mn = -(1 << (bits - 1)) if signed else 0
        lists = [[None, None, None], [1, None, None], [5, 2, 9], [0, None, 10, None], [mx, 0, 1], [None, 100, None], [7]]
        if signed: lists += [[-1, None, None], [mn, None, mx, 0], [-3, -1, 1], [mn, -2, None]]
        if w > 1: lists += [[0x0102, 0x0201, None], [256, 1, None]]
        if w > 2: lists += [[0x01020304, 0x04030201, 0x03040102, 1]]
        for L in lists:
            at, drv = rng.choice(attrs_) if rng.random() < 0.65 else attrs_[0]
            try: d = fieldless(r, L, *[dict(x) for x in at], drv=drv)
            except OverflowError: continue
            inp = []
            for v in d["variants"]:
                b = v["disc"]
                inp += [b, b[::-1], b + [1, 2], b[::-1] + [9], b[:-1]]
                for delta in (1, -1):
                    x = (int.from_bytes(bytes(b), "big") + delta) % (1 << bits)
                    inp += [list(x.to_bytes(w, "big")) + [3], list(x.to_bytes(w, "little"))]
                if w > 1: inp.append([b[-1]] + [0] * (w - 1)); inp.append([0] * (w - 1) + [b[-1]]); inp.append([1] + b[1:])
                if w > 1: inp.append([255] * (w - 1) + [b[-1]])
            inp += [[0] * w, [255] * w, [128] + [0] * (w - 1), [127] + [255] * (w - 1), []]
            out.append(prog(d, _n=2, _inputs=[list(x) for x in {tuple(x) for x in inp}], _all=drv == "Nom" and not at and rng.random() < 0.5))
            if rng.random() < 0.4:
                k2 = json.loads(json.dumps(d)); k2["attrs"] = [a for a in k2["attrs"] if a["a"] not in ("GenericErrors",)]
                out.append(prog({"K": k2, "S": struct([F("h", U8), F("k", D("K")), F("o", opt(D("K"))), F("z", U8)], *rng.choice([[], [LITTLE], [BIG]]))}, _n=6, _prefix=1))
                out.append(prog({"K": k2, "S": struct([F("n", U8), F("k", vec(D("K")), Count(var("n"))), F("a", arr(D("K"), 2), BIG)])}, _n=6))
    # all byte patterns of u8 and i8, many of u16
    for r in ("u8", "i8"):
        d = fieldless(r, [None, None, 7, None, 64, 127] if r == "u8" else [-128, None, -1, 0, 5, 127])
        out.append(prog(d, _n=0, _grid=[([b, 170], []) for b in range(256)]))
        d = fieldless(r, [9, 1, 2, None, 100])
        out.append(prog(d, _n=0, _grid=[([b], []) for b in range(256)]))
    d = fieldless("u16", [1, 256, 258, 513, 0x8000, 0xffff, 0x7fff])
    out.append(prog(d, _n=0, _all=True, _grid=[(list(v.to_bytes(2, "big")) + [5], []) for v in [x * 257 % 65536 for x in range(80)] + [1, 256, 258, 513, 0x8000, 0x80, 0xffff, 0x7fff, 0xff7f, 0, 2, 255, 257, 259, 512, 514]]))
    # representation word among other attributes and names
    return out

def c12(rng, k):
    out = []
    allc = ["named", "ename", "edefault", "inname", "nested", "setle", "cplt", "opt", "vec", "arr", "callx", "generr", "strsyn", "split", "odd", "exact", "tail", "nomle", "exec", "sub", "count", "xargs"]
    ops = ["eq", "ne", "lt", "gt", "le", "ge"]
    for it in ("u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"):
        for o in rng.sample(ops, 3):
            for v in rng.sample([0, 1, 2, 3, 100], 2):
                s = lambda n, it=it, o=o, v=v: [F(n(0), U8), F(n(1), T(it), Verify(cmp_(o, SELF, lit(v)))), F(n(2), U8)]
                out += cross([s], rng.sample(allc, 2))
    ver = [lambda n: [F(n(0), U8), F(n(1), U8, Verify(eq(SELF, var(n(0))))), F(n(2), U8)], lambda n: [F(n(0), U8), F(n(1), U8, Verify(band(gt(SELF, lit(0)), lt(SELF, var(n(0)))))), F(n(2), U8)],
           lambda n: [F(n(0), U8), F(n(1), vec(U8), Verify(gt(SLEN, lit(1))), Count(var(n(0)))), F(n(2), U8)], lambda n: [F(n(0), U8), F(n(1), vec(U8), Count(var(n(0))), Verify(gt(SELF, lit(1)))), F(n(2), U8)],
           lambda n: [F(n(0), U8), F(n(1), SLICE, Verify(eq(SLEN, var(n(0)))) if False else Verify(lt(SLEN, lit(3))), Take(var(n(0)))), F(n(2), U8)], lambda n: [F(n(0), U8), F(n(1), opt(U8), Cond(gt(var(n(0)), lit(1))), Verify(cmp_("ne", SELF, lit(2)))), F(n(2), U8)],
           lambda n: [F(n(0), STR, Verify(gt(SLEN, lit(0)))), F(n(1), U8)], lambda n: [F(n(0), U16, Verify(lg(1, lt(SELF, lit(300)))), COMPLETE), F(n(1), U16, COMPLETE, Verify(lg(2, cmp_("ne", SELF, lit(1))))), F(n(2), U8)],
           lambda n: [F(n(0), U8, Verify(lg(1, tf(True)))), F(n(1), U8, Verify(lg(2, tf(False)))), F(n(2), U8, Parse(plog(3, num("u8"))))], lambda n: [F(n(0), U8, Verify(lt(SELF, lit(5))), Parse(num("u8"))), F(n(1), U16, Verify(gt(SELF, lit(5))), Parse(num("u16", "le")))],
           lambda n: [F(n(0), U8, Verify(lt(SELF, lit(5))), Verify(gt(SELF, lit(1))), Parse(num("u8"))), F(n(1), U8)], lambda n: [F(n(0), U8, Verify(lt(SELF, lit(3))), Parse(perr(False))), F(n(1), U8)],
           lambda n: [F(n(0), U8, Verify(lt(SELF, lit(3))), Parse(perr(True)))], lambda n: [F(n(0), vec(U8), Verify(lg(3, lt(SLEN, lit(3)))), LCount(num("u8"))), F(n(1), U8)],
           lambda n: [F(n(0), U8), F(n(1), U8, Verify(gt(ILEN, lit(2)))), F(n(2), U8)], lambda n: [F(n(0), U8, Pos("SkipBefore", lit(1)), Verify(lg(1, lt(SELF, lit(4)))), Pos("SkipAfter", lit(1)), Post(mk(2))), F(n(1), U8)],
           lambda n: [F(n(0), opt(U8)), F(n(1), opt(U8), Cond(is_some(n(0))), Verify(lt(SELF, lit(4)))), F(n(2), U8)], lambda n: [F(n(0), U8, DEBUG, Verify(lt(SELF, lit(3)))), F(n(1), U8, Verify(lt(SELF, lit(3))), DEBUG)]]
    out += cross(ver, allc)
    err = [lambda n: [F(n(0), U8), F(n(1), U16, ErrorIf(gt(var(n(0)), lit(2)))), F(n(2), U8)], lambda n: [F(n(0), U8, ErrorIf(lg(1, tf(False)))), F(n(1), U8, ErrorIf(lg(2, tf(True)))), F(n(2), U8)],
           lambda n: [F(n(0), U8, ErrorIf(gt(ILEN, lit(3)))), F(n(1), U8)], lambda n: [F(n(0), U8), F(n(1), U8, ErrorIf(lg(1, eq(var(n(0)), lit(1)))), ErrorIf(lg(2, eq(var(n(0)), lit(2)))), Parse(plog(3, num("u8")))), F(n(2), U8)],
           lambda n: [F(n(0), U8), F(n(1), U8, Pos("SkipBefore", lit(2)), ErrorIf(lg(1, lt(ILEN, lit(2))))), F(n(2), U8)], lambda n: [F(n(0), U8), F(n(1), U8, ErrorIf(lg(1, lt(ILEN, lit(3)))), Pos("SkipBefore", lit(2))), F(n(2), U8)],
           lambda n: [F(n(0), U8), F(n(1), SLICE, ErrorIf(gt(var(n(0)), lit(3))), Take(var(n(0)))), F(n(2), U8, ErrorIf(gt(vlen(n(1)), lit(1))))], lambda n: [F(n(0), T("i16")), F(n(1), U8, ErrorIf(lt(var(n(0)), lit(0)))), F(n(2), U8)],
           lambda n: [F(n(0), U8), F(n(1), opt(U16), ErrorIf(eq(var(n(0)), lit(1))), Cond(gt(var(n(0)), lit(2)))), F(n(2), U8)], lambda n: [F(n(0), U8), F(n(1), U8, Pre(mk(1)), ErrorIf(bor(eq(var(n(0)), lit(0)), band(gt(var(n(0)), lit(2)), lt(var(n(0)), lit(5))))), Pre(mk(2))), F(n(2), U8)],
           lambda n: [F(n(0), U8), F(n(1), U8, COMPLETE, ErrorIf(gt(var(n(0)), lit(1)))), F(n(2), PHANTOM, ErrorIf(eq(var(n(0)), lit(1)))), F(n(3), U8, Value(lit(1)), ErrorIf(eq(var(n(0)), lit(0))))]]
    out += cross(err, allc + ["tuple", "etuple", "pair"])
    # Exact at every level of nesting
    bod = [lambda n: [F(n(0), U8)], lambda n: [F(n(0), U8), F(n(1), SLICE, Take(var(n(0))))], lambda n: [F(n(0), U8), F(n(1), vec(U16))], lambda n: [F(n(0), opt(U32))], lambda n: [F(n(0), U8), F(n(1), U8, Pos("SkipAfter", lit(1)))],
           lambda n: [F(n(0), U8), F(n(1), U8, Pos("MoveAbs", lit(0)))], lambda n: [F(n(0), SLICE, Parse(REST))]]
    for b in bod:
        for at in ([EXACT], [EXACT, COMPLETE], [EXACT, Post(mk(2))], [Post(mk(1)), EXACT], [Post(adv(1)), EXACT], [EXACT, Post(adv(1))], [EXACT, LITTLE], [EXACT, InName("zz")], [EXACT, GENERR], [Pre(adv(1)), EXACT]):
            out.append(prog(struct(b(PLAIN), *[dict(x) for x in at]), _n=6, _prefix=1))
            if at[0]["a"] == "Exact" and len(at) == 1:
                out.append(prog(struct(b(NUMN), EXACT, shape="unnamed"), _n=6))
                out.append(prog({"S": struct([F("h", U8), F("t", D("T")), F("z", U8)]), "T": struct(b(PLAIN), EXACT)}, _n=8))
                out.append(prog({"S": struct([F("h", U8), F("t", D("T"), Parse(psub(var("h"), pty(D("T")))), ), F("z", U8)]), "T": struct(b(PLAIN), EXACT)}, _n=14))
                out.append(prog({"S": struct([F("t", opt(D("T"))), F("z", U8)]), "T": struct(b(PLAIN), EXACT)}, _n=8))
                out.append(prog({"S": enum(U8, [variant("A", plit(1), b(PLAIN), shape="named"), variant("B", plit(2)), variant("C", WILD, b(NUMN))], EXACT)}, "S", _n=10, _args=[[[1]], [[2]], [[3]]]))
    for r in ("u8", "u16"): out.append(prog(fieldless(r, [0, 1, 2], EXACT), _n=12))
    out += unitvars(rng, 6 * k, "err")
    r = rnd(rng, 110 * k, "Verify", "ErrorIf", "Exact")
    for p in out: p.setdefault("_n", 4)
    return out + r

def c13(rng, k):
    out = []
    allc = ["named", "tuple", "ename", "etuple", "edefault", "inname", "nested", "nested2", "setle", "cplt", "opt", "vec", "arr", "callx", "generr", "strsyn", "split", "exact", "tail", "nomle", "exec", "sub", "xargs", "built", "pair"]
    sn = [lambda n: [F(n(0), U8, Pre(mk(1)), Post(mk(2))), F(n(1), U16, Pre(mk(3)), Post(mk(4))), F(n(2), U8, Pre(mk(5)), Post(mk(6)))],
          lambda n: [F(n(0), U8, Post(mv(1, n(0)))), F(n(1), U16, Pre(mv(2, n(0))), Post(mv(3, n(1))), Post(mv(4, n(0)))), F(n(2), U8, Pre(mv(5, n(1))))],
          lambda n: [F(n(0), U8, Pre(mk(1)), Pre(mk(2)), Pre(mk(3)), Post(mk(4)), Post(mk(5)))],
          lambda n: [F(n(0), U8, Pre(let("x", U8, lit(3))), Post(mv(1, "x"))), F(n(1), U8, Post(let("x", U16, add(lit(1), lit(5)))), Pre(mv(2, "x"))), F(n(2), SLICE, Pre(mv(3, "x")), Take(mod(var("x"), 4)))],
          lambda n: [F(n(0), U8, Pre(rd("x", U16)), Post(rd("y", U8, "le"))), F(n(1), vec(U8), Count(mod(var("y"), 3)), Pre(mv(1, "x")), Post(mk(2)))],
          lambda n: [F(n(0), U8, Pre(adv(1)), Pre(mk(1))), F(n(1), U8, Pre(mk(2)), Pre(adv(2)), Pre(mk(3)), Post(adv(1)), Post(mk(4))), F(n(2), U8)],
          lambda n: [F(n(0), U8, Pre(mk(1)), Pos("SkipBefore", lit(1)), Pre(mk(2)), Pos("AlignBefore", lit(4)), Pre(mk(3)), Post(mk(4)), Pos("SkipAfter", lit(1)), Post(mk(5)), Pos("AlignAfter", lit(4)), Post(mk(6))), F(n(1), U8)],
          lambda n: [F(n(0), U8), F(n(1), U8, Pre(mk(1)), ErrorIf(lg(2, gt(var(n(0)), lit(1)))), Pre(mk(3)), Post(mk(4))), F(n(2), U8, Pre(mk(5)))],
          lambda n: [F(n(0), U8), F(n(1), opt(U16), Pre(mk(1)), Cond(gt(var(n(0)), lit(1))), Post(mk(2)), Post(mv(3, n(1)))), F(n(2), U8)],
          lambda n: [F(n(0), U8), F(n(1), vec(U8), Pre(mk(1)), Count(var(n(0))), Parse(plog(2, num("u8"))), Post(mk(3))), F(n(2), U8)],
          lambda n: [F(n(0), U8, Pre(mk(1)), Parse(plog(2, num("u8"))), Post(mk(3))), F(n(1), U8, Pre(mk(4)), Parse(perr(False)), Post(mk(5))), F(n(2), U8, Pre(mk(6)))],
          lambda n: [F(n(0), U8, Value(lit(4)), Pre(mk(1)), Post(mv(2, n(0)))), F(n(1), PHANTOM, Pre(mk(3)), Post(mk(4))), F(n(2), U16, IGN, Post(mv(5, n(2))))],
          lambda n: [F(n(0), U8, Pre(let("sz", USIZE, lit(2)))), F(n(1), vec(U8), Count(var("sz"))), F(n(2), SLICE, Take(var("sz"))), F(n(3), U8, ErrorIf(gt(var("sz"), lit(2))), Pos("SkipBefore", var("sz")))],
          lambda n: [F(n(0), U8, Post(let(n(0), U8, lit(7)))), F(n(1), U8, Pre(mv(1, n(0))))],
          lambda n: [F(n(0), U8, Pre(let("x", U8, lit(1))), Pre(let("x", U8, add(var("x"), lit(1)))), Pre(mv(1, "x")), Post(let("x", U8, add(var("x"), lit(1)))), Post(mv(2, "x"))), F(n(1), U8, Pre(mv(3, "x")))],
          lambda n: [F(n(0), U8, Map(cv("inc8", id=3)), Pre(mk(1)), Post(mk(5)), Parse(plog(2, num("u8")))), F(n(1), vec(U8), Pre(mk(6)), Map(cv("tovec", id=7)), Take(lit(2)), Post(mk(8)))],
          lambda n: [F(n(0), U8, COMPLETE, Pre(rd("k", U8)), Post(rd("l", U16))), F(n(1), U8, Pre(mv(1, "k")), Pre(mv(2, "l")))],
          lambda n: [F(n(0), U8, Pre(let("w", U8, lit(1)))), F(n(1), U16, SetE(eite(eq(var("w"), lit(1))), id=4), Pre(mk(5)), Post(mk(6))), F(n(2), U16, Pre(let("w2", U16, add(lit(1), lit(1)))), SetE(eite(gt(var("w2"), lit(5)))), Post(mk(7)))]]
    out += cross(sn, allc)
    # type level
    tops = [[Pre(mk(1)), Post(mk(2))], [Pre(mk(1)), Pre(mk(2)), Post(mk(3)), Post(built(4)), Post(mk(5))], [Pre(rd("x", U8)), Pre(mv(1, "x"))], [Pre(adv(2)), Post(adv(1)), Post(mk(1))], [Pre(let("x", U8, lit(4)))], [Post(rd("t", U8)), Post(mv(1, "t"))],
            [Pre(mk(1)), COMPLETE, Post(built(2)), LITTLE], [Post(built(1)), EXACT, Post(mk(2))], [EXACT, Post(mk(1))], [SetE(eite(gt(ILEN, lit(4))), id=8), Pre(mk(1))], [Pre(adv(1)), SetE(eite(gt(ILEN, lit(4))), id=8), Pre(mk(1))], [Pre(let("q", U8, lit(1))), SetE(eite(gt(var("q"), lit(4))), id=8)]]
    for tp in tops:
        uses_x = any(a.get("s", {}).get("x") == "x" and a["s"]["s"] in ("rd", "let") for a in tp)
        b = [F("a", U8), F("b", U16, Pre(mv(30, "x")) if uses_x else Pre(mk(30))), F("c", SLICE, Take(mod(var("x"), 3) if uses_x else lit(1)))]
        for d in (struct(b, *[dict(x) for x in tp]), struct(b, *[dict(x) for x in tp], g="split")): out.append(prog(d, _n=8, _prefix=1))
        out.append(prog({"S": struct([F("h", U8), F("t", D("T")), F("o", opt(D("T")))]), "T": struct(b, *[dict(x) for x in tp])}, _n=8))
        out.append(prog(struct([], *[dict(x) for x in tp if not (x["a"] == "PostExec" and False)], shape="unit"), _n=6))
        out.append(prog({"S": enum(U8, [variant("A", plit(1), b, shape="named"), variant("B", plit(2), [], Pre(mk(20)), Parse(plog(21, num("u8"))), Post(mk(22))), variant("C", plit(3), [], Pre(mk(23)), Post(mk(24))), variant("D", WILD, [F("_0", U8, Pre(mk(25)), Post(mk(26)))])], *[dict(x) for x in tp])}, "S", _n=16, _prefix=3, _args=[[[1]], [[2]], [[3]], [[4]]]))
        if not any(x["a"] == "SetEndian" for x in tp): out.append(prog(fieldless("u8", [0, 1, 2], *[dict(x) for x in tp]), _n=8))
    # failure at every point: nothing after it runs
    for bad in range(4):
        for how in ("err", "inc", "errif", "verify", "align"):
            def s(n, bad=bad, how=how):
                r = []
                for i in range(4):
                    at = [Pre(mk(10 + i)), Post(mk(20 + i))]
                    if i == bad:
                        if how == "err": at.append(Parse(perr(False)))
                        elif how == "inc": at.append(Parse(psub(lit(30), num("u8"))))
                        elif how == "errif": at.insert(1, ErrorIf(lg(40, tf(True))))
                        elif how == "verify": at.append(Verify(lg(41, tf(False))))
                        else: at.insert(1, Pos("SkipBefore", lit(60)))
                    r.append(F(n(i), U8, *at))
                return r
            out += cross([s], ["named", "tuple", "ename", "nested", "vec", "cplt", "built", "callx"])
    out += unitvars(rng, 8 * k, "stmt", "err")
    r = rnd(rng, 130 * k, "PreExec", "PostExec")
    for p in out: p.setdefault("_n", 4)
    return out + r

def c14(rng, k):
    """the same random definitions with and without diagnostic / naming / error-type attributes"""
    out = []
    base = random_programs(rng, 60 * k, None, debug=False, generr=False, complete=True)
    base += [p for p in cross([lambda n: [F(n(0), U8), F(n(1), vec(U16), Count(var(n(0)))), F(n(2), U8, Verify(lt(SELF, lit(4))))], lambda n: [F(n(0), SLICE, Tag([1])), F(n(1), opt(U16), Cond(gt(ILEN, lit(2)))), F(n(2), STR)],
                               lambda n: [F(n(0), U8), F(n(1), U16, Pos("AlignBefore", lit(4)), ErrorIf(gt(ILEN, lit(9)))), F(n(2), vec(U8), Count(lit(2)), Verify(lt(SELF, lit(4))))], lambda n: [F(n(0), arr(U16, 2)), F(n(1), U8, Pos("Move", neg(lit(2)))), F(n(2), U8)],
                               lambda n: [F(n(0), vec(U8), LCount(num("u8"))), F(n(1), opt(U8)), F(n(2), U8, Parse(perr(True)))]], ["named", "ename", "nested", "callx", "vec", "cplt", "setle", "tuple", "count", "opt", "xargs"])]
    def alld(p): return [d for d in p["defs"].values() if d["kind"] != "type"]
    def v_debugtop(q):
        for d in alld(q):
            if d["kind"] == "fieldless": d["attrs"].append(dict(DEBUG)); continue
            if not any(f["n"][0] == "_" for f in list(d["fields"]) + [x for v in d.get("variants", []) for x in v.get("fields", [])]): d["attrs"].insert(0, dict(DEBUG))
    def v_debugfield(q):
        for d in alld(q):
            for f in list(d["fields"]) + [x for v in d.get("variants", []) for x in v.get("fields", [])]:
                if f["n"][0] == "_": continue
                f["attrs"].insert(0, dict(DEBUG))
    def v_debugdeep(q):
        for d in alld(q):
            for f in list(d["fields"]) + [x for v in d.get("variants", []) for x in v.get("fields", [])]:
                if f["n"][0] == "_": continue
                for pos in sorted(rng.sample(range(len(f["attrs"]) + 1), min(2, len(f["attrs"]) + 1)), reverse=True): f["attrs"].insert(pos, dict(DEBUG))
    def v_in(q):
        for j, d in enumerate(alld(q)):
            if not has(d, "InputName"): d["attrs"].append(InName(["input", "inp_ut", "xs", "buffer0"][j % 4]))
    def v_gen(q):
        for d in alld(q): d["attrs"].append(dict(GENERR))
        q["err"] = "chain"
    def v_dd(q):
        for d in alld(q): d["attrs"].append(dict(DBGDERIVE))
    def ok_gen(p):
        # a derived type cannot know what its callee's error type needs
        for n, d in p["defs"].items():
            if d["kind"] == "type": return False
            s = json.dumps(d)
            if '"k": "str"' in s and (n != p["main"] or '"p": "ty"' in s): return False
            if '"a": "Debug"' in s and n != p["main"]: return False
        return True
    for p in base:
        out.append(p)
        q = with_attr(p, v_debugtop); out.append(q)
        if rng.random() < 0.7: out.append(with_attr(p, v_debugfield))
        if rng.random() < 0.7: out.append(with_attr(p, v_debugdeep))
        if rng.random() < 0.7: out.append(with_attr(p, v_in))
        if ok_gen(p):
            g = with_attr(p, v_gen); out.append(g)
            if rng.random() < 0.4: out.append(with_attr(g, v_in))
            if len(p["defs"]) == 1 and rng.random() < 0.4: out.append(with_attr(g, v_debugfield))
        if rng.random() < 0.1: out.append(with_attr(p, v_dd))
    for p in out: p["_n"] = 7; p["_prefix"] = 0
    return out

def c15(rng, k):
    out = []
    at = [U8, U16, U32, U64, I8, I32, BOOL, ENDIAN, USIZE, opt(U8), tup(U8, U16), T("char"), I128]
    for j in range(110 * k):
        n = rng.choice([1, 1, 2, 2, 3, 4, 5])
        ps = [("p%d" % i, rng.choice(at)) for i in range(n)]
        if rng.random() < 0.3:   # several of the same type: order is visible
            t = rng.choice([U8, U16, U32]); ps = [("p%d" % i, t) for i in range(n)]
        sel = rng.choice([None, None, U8, U16, U32, I8])
        sc = dict(ps)
        nm = [x for x, t in ps if t["k"] not in ("endian", "char")]
        ints = [x for x, t in ps if t["k"] in ("u8", "u16", "u32", "u64", "i8", "i32", "usize")]
        allints = ints + (["selector"] if sel else [])
        def fields(tag, ints):
            fs = [F("a", U16)]
            for i, (x, t) in enumerate(ps):
                if t["k"] in ("u8", "u16", "u32", "u64", "i8", "i32", "i128", "usize"): fs.append(F("v%d" % i, t, Value(var(x))))
                elif t["k"] == "bool": fs.append(F("v%d" % i, BOOL, Value(bvar(x))))
                elif t["k"] == "endian": fs.append(F("v%d" % i, U16, SetE(evar(x)))) if fixed == "no" else None
                else: fs.append(F("v%d" % i, t, Value(var(x))))
            if sel and tag: fs.append(F("vs", sel, Value(var("selector"))))
            if ints:
                x = rng.choice(ints)
                fs.append(rng.choice([F("c", vec(U8), Count(mod(us(var(x)) if sc.get(x, U8)["k"][0] == "i" else var(x), 3))) if sc.get(x, U8)["k"][0] != "i" else F("c", opt(U8), Cond(gt(var(x), lit(1)))), F("c", opt(U16), Cond(gt(var(x), lit(1)))), F("c", U8, ErrorIf(eq(var(x), lit(3))))]))
            fs.append(F("z", U32))
            return fs
        fixed = rng.choice(["no", "no", "be", "le", "nbe", "nle"])
        ta = {"no": [], "be": [BIG], "le": [LITTLE], "nbe": [], "nle": []}[fixed]
        drv = {"nbe": "NomBE", "nle": "NomLE"}.get(fixed, "Nom")
        log = [Pre(mv(60 + i, x)) for i, x in enumerate(nm) if rng.random() < 0.4] + [Post(mv(80 + i, x)) for i, x in enumerate(nm) if rng.random() < 0.2]
        more = rng.choice([[], [], [InName("inp")], [COMPLETE], [GENERR]])
        top = [Extra(*ps)] + ta + log + more
        rng.shuffle(top)
        if sel is None:
            d = struct(fields(False, ints), *top, drv=drv, shape=rng.choice(["named", "unnamed"]))
            if d["shape"] == "unnamed": pass
        else:
            vs = [variant("A", plit(1), fields(True, allints), shape="named"), variant("B", plit(2), [F("_0", U16)]), variant("C", WILD, [F("_0", U32), F("_1", rng.choice([U8]), Value(var(ints[0])) if ints and sc[ints[0]]["k"] == "u8" else Parse(num("u8")))])]
            d = enum(sel, vs, *top, drv=drv)
            rng.shuffle(d["attrs"])
        out.append(prog({"S": d}, "S", _n=6, _all=True))
        # called from a parent with values decoded there
        if all(t["k"] in ("u8", "u16", "u32", "i8", "i32", "bool", "endian") for _, t in ps) and not has(d, "GenericErrors") and rng.random() < 0.6:
            fs, args = [], []
            if sel: fs.append(F("sl", sel)); args.append(var("sl"))
            for x, t in ps:
                if t["k"] == "endian": args.append(rng.choice([BE, LE]))
                elif t["k"] == "bool": args.append(tf(rng.random() < 0.5))
                else: fs.append(F("h" + x, t)); args.append(var("h" + x))
            fs.append(F("t", D("T"), Parse(callx("T", args, *rng.choice([("be", None), ("le", None), ("be", "parse")])))))
            out.append(prog({"S": struct(fs + [F("zz", U16)]), "T": d}, _n=6, _all=True))
    # plain types: three entry points
    sn = [lambda n: [F(n(0), U16), F(n(1), opt(U32)), F(n(2), vec(U16), Count(lit(2)))], lambda n: [F(n(0), U16, BIG), F(n(1), U32, LITTLE)], lambda n: [F(n(0), D("In")), F(n(1), arr(U16, 2))], lambda n: [F(n(0), U16, Parse(num("u16", "le"))), F(n(1), CUSL), F(n(2), STR)]]
    for s in sn:
        for c in ("named", "tuple", "ename", "nomle", "nombe", "big", "little", "nested", "setle", "generr", "xargs", "callx", "inname", "vec"):
            p = mk_ctx(c, s)
            if p is None: continue
            if '"d": "In"' in json.dumps(p["defs"]): p["defs"]["In"] = struct([F("x", U16), F("y", U32)], *([GENERR] if has(p["defs"][p["main"]], "GenericErrors") else []))
            p.update(_n=4, _all=True); out.append(p)
    for r in ("u8", "u16", "i32", "u64"):
        for at_, drv in (([], "Nom"), ([BIG], "Nom"), ([LITTLE], "Nom"), ([], "NomBE"), ([], "NomLE")): out.append(prog(fieldless(r, [1, 100, 2], *at_, drv=drv), _n=5, _all=True))
    r = rnd(rng, 60 * k)
    for p in r: p.update(_n=4, _all=True, _prefix=0)
    return out + r

def c16(rng, k):
    out = []
    for p in random_programs(rng, 260 * k, None):
        p.update(_n=10, _hostile=True, _prefix=1); out.append(p)
    host = [lambda n, t=t: [F(n(0), t), F(n(1), U8, Pos(d, var(n(0)))), F(n(2), U8)] for t in (U64, I64, U32, U16, I8, U128, I128) for d in ()]
    for t in ("u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"):
        t_ = T(t)
        for mkf in (lambda n: [Pos("SkipBefore", var(n))], lambda n: [Pos("SkipAfter", var(n))], lambda n: [Pos("Move", var(n))], lambda n: [Pos("MoveAbs", var(n))], lambda n: [Pos("Move", var(n)), Pos("Move", var(n))], lambda n: [Pos("SkipBefore", lit(1)), Pos("MoveAbs", var(n)), Pos("AlignAfter", lit(8))]):
            fs = [F("n", t_), F("a", U8, *mkf("n")), F("b", U8)]
            out.append(prog(struct(fs), _n=8, _hostile=True))
            out.append(prog({"S": struct([F("h", U16), F("t", D("T")), F("z", U8)]), "T": struct(fs)}, _n=6, _hostile=True))
        out.append(prog(struct([F("n", t_), F("a", SLICE, Take(var("n"))), F("b", U8)]), _n=10, _hostile=True))
        out.append(prog(struct([F("n", t_), F("a", vec(U8), Count(var("n"))), F("b", U8)]), _n=10, _hostile=True))
        out.append(prog(struct([F("n", t_), F("a", vec(D("In")), Count(var("n"))), F("b", U8)]) if False else {"S": struct([F("n", t_), F("a", vec(D("In")), Count(var("n"))), F("b", U8)]), "In": SUBS["In"]}, _n=8, _hostile=True))
        if t[0] == "u" and t != "u128":
            out.append(prog(struct([F("a", vec(U32), LCount(num(t))), F("b", U8)]), _n=10, _hostile=True))
            out.append(prog(struct([F("a", SLICE, Parse(pldata(t))), F("b", U8)]), _n=10, _hostile=True))
        if t in ("u8", "u16", "u32", "u64"):
            for q in (ld(t), opt(ld(t)), vec(ld(t)), arr(ld(t), 2)): out.append(prog({"S": typ(q)}, "S", _n=12, _hostile=True, _all=True))
        if t not in ("u128", "i128"): out.append(prog(fieldless(t, [0, 1, 5]), _n=8, _hostile=True))     # repr(u128) is unstable
        out.append(prog(struct([F("n", t_), F("a", U8, Pos("AlignBefore", ite(gt(us(var("n")), lit(0)), us(var("n")), lit(1)))), F("b", U8, Pos("AlignAfter", ite(gt(us(var("n")), lit(0)), us(var("n")), lit(1))))]), _n=10, _hostile=True))
    for q in (STR, vec(STR), opt(STR), arr(STR, 2), vec(U8), vec(vec(U8)), opt(vec(U8)), arr(vec(U8), 2), vec(opt(U8)), arr(opt(U8), 3), vec(arr(U8, 2)), tup(STR, STR)):
        out.append(prog({"S": typ(q)}, "S", _n=16, _hostile=True))
    # zero-size items in unbounded vectors and arrays must stop
    zs = {"Z": struct([], shape="unit"), "Y": struct([F("p", PHANTOM), F("d", U8, IGN)]), "X": struct([F("c", opt(U8), Cond(tf(False)))]), "M": struct([F("a", U8), F("b", U8, Pos("MoveAbs", lit(0)))]), "B": struct([F("a", U8, Pos("MoveAbs", lit(0))), F("b", PHANTOM, Pos("MoveAbs", lit(0)))])}
    for z in zs:
        for t in (vec(D(z)), arr(D(z), 2), opt(D(z)), vec(opt(D(z)))): out.append(prog({"S": struct([F("h", U8), F("v", t), F("z", U8)]), z: zs[z]}, _n=8))
    return out

def c18(rng, k):
    out = []
    insts = [U8, U16, U32, F64, opt(U16), vec(U8), arr(U16, 2), STR, tup(U8, U16), D("In"), CUSL, TRI, ("K", D("K")), U128, vec(tup(U8, U8)), opt(D("In"))]
    def gpt(name, t): return dict(t, gp=name)
    def g(fields, params, name="S", **k_): return struct(fields, gen=[{"n": n, "t": t, **({"b": b} if b else {})} for n, t, b in params], **k_)
    subs = {"In": struct([F("x", U8), F("y", U16)]), "K": fieldless("u8", [0, 1, 3])}
    def close(defs):
        for x in subs:
            if '"d": "%s"' % x in json.dumps(defs) and x not in defs: defs[x] = subs[x]
        return defs
    pool = [t if isinstance(t, dict) else t[1] for t in insts]
    for t in pool:
        for drv, at in (("Nom", []), ("NomLE", []), ("Nom", [BIG]), ("Nom", [LITTLE])):
            gt_ = gpt("T", t)
            shapes = [[F("a", U8), F("g", gt_), F("z", U8)], [F("g", gt_)], [F("o", opt(gt_)), F("z", U8)], [F("n", U8), F("v", vec(gt_), Count(var("n"))), F("z", U8)], [F("v", arr(gt_, 2)), F("z", U8)], [F("g", gt_, LITTLE), F("h", gt_, BIG)],
                      [F("c", U8), F("o", opt(gt_), Cond(gt(var("c"), lit(1)))), F("p", {"k": "phantom", "t": gt_}), F("z", U8)], [F("g", gt_, COMPLETE), F("z", U8)], [F("v", vec(gt_), LCount(num("u8")))], [F("a", U8), F("g", gt_, Pos("AlignBefore", lit(4)), Pos("SkipAfter", lit(1))), F("z", U8)]]
            for fs in rng.sample(shapes, 2 + k):
                if t["k"] in ("vec", "str", "opt") and any(a["a"] == "Count" for f in fs for a in f["attrs"]) and t["k"] == "vec": continue
                if t["k"] == "vec" and any(a["a"] in ("LengthCount",) for f in fs for a in f["attrs"]): continue
                if t["k"] == "opt" and any(a["a"] in ("Count", "LengthCount") for f in fs for a in f["attrs"]): continue
                if t["k"] == "tup" and False: continue
                d = g([dict(f) for f in fs], [("T", t, None)], shape=rng.choice(["named", "unnamed"]) if not any(a["a"] in ("Count", "Cond") for f in fs for a in f["attrs"]) else "named", drv=drv)
                d["attrs"] = [dict(x) for x in at]
                if rng.random() < 0.3: d["gen"][0]["b"] = "core::fmt::Debug" if t["k"] not in ("cus", "def") and not "def" in json.dumps(t) and "cus" not in json.dumps(t) else ""
                if rng.random() < 0.3: d["wh"] = "T: Sized"
                out.append(prog(close({"S": d}), "S", _n=5, _all=True))
    # two parameters, generic inside generic, generic next to a lifetime
    for _ in range(40 * k):
        t, u = rng.choice(pool), rng.choice(pool)
        a, b = gpt("T", t), gpt("U", u)
        fs = [F("a", a), F("h", U8), F("b", b), F("c", opt(gpt("T", t)))]
        if rng.random() < 0.4: fs.insert(2, F("s", SLICE, Take(mod(var("h"), 3))))
        d = g(fs, [("T", t, None), ("U", u, None)])
        out.append(prog(close({"S": d}), "S", _n=5, _all=True))
        inner = g([F("x", gpt("X", u)), F("y", U16)], [("X", u, None)])
        inner["rn"] = "I"
        d2 = g([F("h", U8), F("g", {"k": "def", "d": "I", "ga": [gpt("T", u)]}), F("z", U8)], [("T", u, None)])
        defs = {"S": d2, "I": inner}
        inner.pop("rn")
        d3 = struct([F("h", U8), F("g", {"k": "def", "d": "I", "ga": [u]}), F("z", U8)])
        out.append(prog(close({"S": d3, "I": inner}), "S", _n=5))
    # enums with a parameter
    for t in rng.sample(pool, 6):
        e = enum(U8, [variant("A", plit(0), [F("_0", gpt("T", t))]), variant("B", plit(1), [F("x", U8), F("y", opt(gpt("T", t)))], shape="named"), variant("C", WILD)])
        e["gen"] = [{"n": "T", "t": t}]
        out.append(prog(close({"S": e}), "S", _n=8, _args=[[[0]], [[1]], [[2]]], _all=True))
    # borrowing: slices everywhere, identity checked through offsets
    bo = [lambda n: [F(n(0), U8), F(n(1), SLICE, Take(var(n(0)))), F(n(2), SLICE, Tag([1])), F(n(3), U8)], lambda n: [F(n(0), SLICE, Parse(pldata("u8"))), F(n(1), SLICE, Parse(REST))], lambda n: [F(n(0), vec(SLICE), LCount(num("u8")), Take(lit(2))), F(n(1), U8)],
          lambda n: [F(n(0), U8), F(n(1), opt(SLICE), Cond(gt(var(n(0)), lit(1))), Take(lit(3)))], lambda n: [F(n(0), SLICE, Take(lit(1))), F(n(1), SLICE, Take(lit(1))), F(n(2), SLICE, Pos("Move", neg(lit(2))), Take(lit(2)))], lambda n: [F(n(0), U8), F(n(1), ld("u16"), Parse(pty(ld("u16"), "le"))), F(n(2), U8)],
          lambda n: [F(n(0), SLICE, Take(lit(0))), F(n(1), U8), F(n(2), SLICE, Take(lit(0)))], lambda n: [F(n(0), U8), F(n(1), SLICE, Verify(gt(SLEN, lit(1))), Take(var(n(0)))), F(n(2), SLICE, COMPLETE, Take(lit(2)))],
          lambda n: [F(n(0), U8), F(n(1), vec(SLICE), Count(var(n(0))), Parse(pldata("u8"))), F(n(2), U8)]]
    out += cross(bo, ALL_CTX)
    defs = {"L": struct([F("n", U8), F("s", SLICE, Take(mod(var("n"), 4)))]), "M": struct([F("a", D("L")), F("b", opt(D("L")))]), "E": enum(U8, [variant("A", plit(0), [F("_0", D("L"))]), variant("B", WILD, [F("_0", SLICE, Take(lit(2)))])]), "V": struct([F("v", vec(D("L")))])}
    for t in (D("L"), opt(D("L")), vec(D("L")), arr(D("L"), 2), D("M"), D("V"), vec(tup(U8, D("L")))):
        out.append(prog(dict({x: defs[x] for x in ("L", "M", "V") if '"d": "%s"' % x in json.dumps(t) or x == "L"}, S=struct([F("h", U8), F("t", t)])), _n=16))
    out.append(prog({"L": defs["L"], "E": defs["E"], "S": struct([F("t", U8), F("e", D("E"), Parse(callx("E", [mod(var("t"), 2)]))), F("z", U8)])}, _n=14))
    for p in out: p.setdefault("_n", 4)
    return out

FAMILIES_ = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C18": c18}

def restate(progs, rng):
    """several statements in one attribute; the same statement twice"""
    for p in progs:
        if "raw" in p or "macro" in p: continue
        for d in p["defs"].values():
            for x in [d] + d.get("variants", []) + d.get("fields", []) + [f for v in d.get("variants", []) for f in v.get("fields", [])]:
                al = x.get("attrs")
                if not al or not any(a["a"] in ("PreExec", "PostExec") for a in al): continue
                new = []
                for a in al:
                    if a["a"] in ("PreExec", "PostExec") and "raw" not in a:
                        a = dict(a)
                        if new and new[-1]["a"] == a["a"] and rng.random() < 0.4: a["mrg"] = 1
                        new.append(a)
                        if a["s"]["s"] in ("mk", "mv", "adv", "push") and rng.random() < 0.1: new.append(dict(a, **({"mrg": 1} if rng.random() < 0.4 else {})))
                    else: new.append(a)
                x["attrs"] = new
    return progs

def lastly(progs, rng, n):
    """the same definitions without their trailing plain fields: what precedes them ends the type"""
    out = []
    for p in rng.sample(progs, len(progs)):
        if len(out) >= n: break
        if "raw" in p or "macro" in p or not p.get("_n", 5): continue
        q = json.loads(json.dumps(p)); hit = False
        for d in q["defs"].values():
            if d.get("norm") or d.get("flat1"): continue
            for x in [d] + d.get("variants", []):
                fs = x.get("fields", [])
                while len(fs) >= 2 and not fs[-1]["attrs"] and fs[-1]["t"]["k"] in W and '"%s"' % fs[-1]["n"] not in json.dumps([a for a in d["attrs"] + x["attrs"]]):
                    fs.pop(); hit = True
        if hit and len(json.dumps(q["defs"])) > 250:
            q["_n"] = max(4, q.get("_n", 5)); q["_prefix"] = 2
            out.append(q)
    return out

def padded(progs, rng, n):
    """the same definitions with attributes that change nothing (but may be observed) anywhere in the lists of their fields and types"""
    out = []
    ident = [800]
    def one_():
        ident[0] += 1
        return rng.choice([lambda: Pre(mk(ident[0])), lambda: Post(mk(ident[0])), lambda: Pos(rng.choice(["SkipBefore", "SkipAfter", "Move"]), lit(0)), lambda: Pos(rng.choice(["AlignBefore", "AlignAfter"]), lit(1)),
                           lambda: ErrorIf(gt(lit(1), lit(2))), lambda: Pre(mk(ident[0]))])()
    for p in rng.sample(progs, len(progs)):
        if len(out) >= n: break
        if "raw" in p or "macro" in p: continue
        q = json.loads(json.dumps(p)); hit = False
        for d in q["defs"].values():
            if d["kind"] == "fieldless" or d.get("norm"): continue
            for f in d.get("fields", []) + [f for v in d.get("variants", []) for f in v.get("fields", [])]:
                if not f["attrs"] and rng.random() < 0.7: continue
                if any(a["a"] == "Map" or "raw" in a for a in f["attrs"]) and rng.random() < 0.5: continue
                for _ in range(rng.choice([1, 2, 2, 3, 4, 6])):
                    at = 0 if rng.random() < 0.5 else rng.randrange(len(f["attrs"]) + 1)
                    f["attrs"].insert(at, one_()); hit = True
        if hit: out.append(q)
    return out

def windowed(progs, rng, n):
    """the same definitions with a part of their fields restricted to a window of the input set by a statement and left by another"""
    out = []
    for p in rng.sample(progs, len(progs)):
        if len(out) >= n: break
        if "raw" in p or "macro" in p: continue
        q = json.loads(json.dumps(p)); hit = False
        for d in q["defs"].values():
            if d["kind"] == "fieldless" or d.get("norm"): continue
            for fs in [d.get("fields", [])] + [v.get("fields", []) for v in d.get("variants", [])]:
                if not fs or rng.random() < 0.3: continue
                a = rng.randrange(len(fs)); b = rng.randrange(a, len(fs))
                fs[a]["attrs"].insert(0 if rng.random() < 0.6 else rng.randrange(len(fs[a]["attrs"]) + 1), Pre(win(rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 9, 12]))))
                fs[b]["attrs"].insert(len(fs[b]["attrs"]) if rng.random() < 0.6 else rng.randrange(1 if b == a else 0, len(fs[b]["attrs"]) + 1), Post(UNWIN))
                hit = True
        if hit: out.append(q)
    return out

def shifted(progs, rng, n):
    """the same definitions with many plain fields before (or behind) their own"""
    out = []
    for p in rng.sample(progs, len(progs)):
        if len(out) >= n: break
        if "raw" in p or "macro" in p or p.get("_ctx") == "odd": continue
        q = json.loads(json.dumps(p)); m = rng.choice([3, 4, 5, 6, 7, 8, 9, 11, 15, 18]); front = rng.random() < 0.75
        name = p["main"] if rng.random() < 0.7 else rng.choice(sorted(q["defs"]))
        d = q["defs"][name]; hit = False
        if d["kind"] not in ("struct", "enum") or d.get("norm") or d.get("flat1"): continue
        for x in ([d] if d["kind"] == "struct" else d["variants"]):
            fs = x.get("fields", [])
            if not fs: continue
            hit = True
            if front and x["shape"] == "unnamed":
                sh = lambda y: json.loads(re.sub(r'"_([0-9]+)"', lambda g: '"_%d"' % (int(g.group(1)) + m), json.dumps(y)))
                fs[:] = sh(fs)
                if x is d: d["attrs"] = sh(d["attrs"])
            if x["shape"] == "unnamed": nm = lambda j: "_%d" % (j if front else len(fs0) + j)
            else: nm = lambda j: "pad%d" % j
            fs0 = list(fs)
            more = [F(nm(j), U8) for j in range(m)]
            x["fields"] = more + fs0 if front else fs0 + more
        if not hit: continue
        lead = [1 + 3 * j % 7 for j in range(m)]
        if name == p["main"]:
            add = (lambda b: lead + list(b)) if front else (lambda b: list(b) + lead)
            if "_inputs" in q: q["_inputs"] = [add(b) for b in q["_inputs"]]
            if "_grid" in q: q["_grid"] = [(add(b), a) for b, a in q["_grid"]]
        else:
            q.pop("_inputs", None); q.pop("_grid", None); q["_n"] = max(5, q.get("_n", 5))
        q["_shift"] = m
        out.append(q)
    return out

def plainenums(rng, n):
    """enums with a selector: only variants that read nothing, a single variant, long lists of alternatives, under every kind of type-level attribute"""
    out = []
    tops = [[EXACT], [COMPLETE], [Pre(mk(1))], [Post(mk(2))], [Post(mv(3, "selector"))], [Pre(adv(1))], [Post(adv(1))], [Pre(adv(1)), EXACT], [EXACT, Post(adv(1))], [InName("data"), EXACT], [LITTLE], [GENERR, EXACT], [Extra(("k", U8)), Pre(mv(4, "k")), EXACT], [EXACT, COMPLETE], []]
    for j in range(n):
        t = rng.choice([U8, U8, U16, U32, I8])
        if j % 3 == 0:      # nothing to read
            vs = [variant("V%d" % i, plit(i), [], shape=rng.choice(["unit", "unit", "unnamed", "named"])) for i in range(rng.choice([1, 2, 2, 3, 5, 8]))]
            if rng.random() < 0.6: vs.insert(rng.randrange(len(vs) + 1), variant("W", WILD))
        elif j % 3 == 1:    # one variant
            b = rng.choice([[F("_0", U8)], [F("_0", U16), F("_1", opt(U8))], [], [F("_0", vec(U8))], [F("_0", SLICE, Take(lit(2)))]])
            vs = [variant("V", rng.choice([WILD, plit(1), prange(0, 3), por(*[plit(x) for x in (0, 1, 3)])]), b)]
        else:               # many alternatives
            al = rng.sample(range(0, 40), 36); vs = []; i = 0
            for v in range(rng.choice([1, 2, 3])):
                m = rng.choice([4, 5, 6, 7, 8, 9, 10, 11, 12])
                ps = [plit(x) if rng.random() < 0.85 else prange(x, x + 1) for x in al[i:i + m]]; i += m
                vs.append(variant("V%d" % v, por(*ps), [F("_0", U8)] if v % 2 == 0 else [], guard=None if rng.random() < 0.7 else cmp_("ne", var("selector"), lit(al[i - 1]))))
            if rng.random() < 0.8: vs.insert(rng.randrange(len(vs) + 1), variant("W", WILD, [F("_0", U16)]))
        at = [json.loads(json.dumps(x)) for x in rng.choice(tops)]
        e = enum(t, vs, *at)
        sels = list(range(0, 42)) if j % 3 == 2 else list(range(0, 9)) + [100]
        p = prog({"S": e}, "S", _n=0, _grid=[(list(range(60, 60 + l)), [be_(s, W[t["k"]])] + ([[s % 3]] if has(e, "ExtraArgs") else [])) for s in sels for l in ((0, 1, 3) if j % 3 != 2 else (rng.choice([0, 1, 2, 3]),))])
        out.append(p)
        if not has(e, "GenericErrors") and not has(e, "ExtraArgs") and t["k"] in ("u8", "u16") and rng.random() < 0.4:
            out.append(prog({"E": e, "S": struct([F("t", t), F("v", D("E"), Parse(callx("E", [var("t")], rng.choice(["be", "le"])))), F("z", U8)])}, "S", _n=0, _inputs=[be_(s, W[t["k"]]) + list(range(60, 60 + l)) for s in sels for l in ((0, 1, 3) if j % 3 != 2 else (rng.choice([0, 2, 3]),))]))
    return out
def be_(v, w): return list(v.to_bytes(w, "big"))

def manyargs(rng, n):
    """more arguments than usual, with names in no order"""
    out = []
    names = ["z", "a", "m", "b", "y", "arg", "c", "x9", "x10", "B", "_u", "k"]
    for j in range(n):
        m = rng.choice([3, 4, 5, 6, 7, 8, 10]); ns = rng.sample(names, m); t = rng.choice([U8, U8, U16, U32])
        ps = [(x, t) for x in ns]
        fs = [F("f0", U8)] + [F("v%d" % i, t, Value(var(x))) for i, x in enumerate(ns)] + [F("w", vec(U8), Count(mod(var(ns[-1]), 3))), F("q", U8, ErrorIf(eq(var(ns[0]), var(ns[-1]))))]
        at = [Extra(*ps)] + rng.choice([[], [LITTLE], [Pre(mv(5, ns[1]))], [COMPLETE], [Post(mv(6, ns[-1]))], [InName("input")]])
        vals = [[be_(x, W[t["k"]]) for x in rng.sample(range(1, 60), m)] for _ in range(3)]
        if rng.random() < 0.6: d = struct(fs, *at, shape=rng.choice(["named", "unnamed"]))
        else: d = enum(U8, [variant("A", plit(0), fs, shape="named"), variant("B", WILD, [F("_0", U8), F("_1", t, Value(var(rng.choice(ns))))])], *at)
        sel = [[[0]], [[1]]] if d["kind"] == "enum" else [[]]
        out.append(prog({"S": d}, "S", _n=0, _all=True, _grid=[(list(range(40, 40 + l)), s + v) for v in vals for s in sel for l in (0, 1, 3, 7)]))
        if not has(d, "GenericErrors"):
            out.append(prog({"S": struct([F("h", U8), F("t", D("T"), Parse(callx("T", ([lit(0)] if d["kind"] == "enum" else []) + [lit(x[-1]) for x in vals[0]])) ), F("z", U8)]), "T": d}, "S", _n=6, _all=True))
    return out

EXTRA_ = {"C10": (plainenums, 30), "C12": (plainenums, 30), "C13": (plainenums, 30), "C05": (plainenums, 20), "C15": (manyargs, 16), "C16": (plainenums, 12), "C01": (plainenums, 12), "C02": (manyargs, 6), "C06": (plainenums, 12)}
def family(prop):
    import longs, shapes
    def f(rng, k):
        base = FAMILIES_[prop](rng, k)
        if prop in EXTRA_: base = base + EXTRA_[prop][0](rng, EXTRA_[prop][1] * k)
        return restate(base + lastly(base, rng, 60 * k) + padded(base, rng, 60 * k) + windowed(base, rng, 30 * k) + shifted(base, rng, 40 * k), rng) + longs.longs(prop, rng, k) + shapes.shapes(prop, rng, k)
    return f
FAMILIES = {p: family(p) for p in FAMILIES_}

HOST = {1: [0x7f, 0x80, 0xff, 0], 2: [0x7fff, 0x8000, 0xffff, 0xfffe], 4: [0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 0x01000000],
        8: [2**63 - 1, 2**63, 2**64 - 1, 2**64 - 2, 2**63 - 9, 2**63 + 1, 2**64 - 8, 2**64 - 9, 2**64 - 16, 2**62, 2**32, 2**63 - 2], 16: [2**127, 2**127 - 1, 2**128 - 1, 2**64, 2**64 + 1, 2**64 - 1, 2**63, 2**128 - 2, 2**128 - 2**63]}
def hostile_inputs(p, rng, n):
    g = Inp(p, rng); out = []
    orig = g.n
    def hn(w, e=None, small=False):
        if rng.random() < 0.45:
            b = list(rng.choice(HOST[w]).to_bytes(w, "big"))
            if rng.random() < 0.35: b.reverse()
            return b
        return orig(w, e, small)
    g.n = hn
    for _ in range(n): out.append((g.one() + [rng.randrange(256) for _ in range(rng.choice([0, 0, 1, 4]))])[:48])
    return out

def expand(progs, rng, per=None):
    """the cases of all programs"""
    cases = []
    for i, p in enumerate(progs):
        n = p.get("_n", per or 5)
        es = ("parse", "be", "le")
        if p.get("_grid"):
            for b, a in p["_grid"]:
                for e in (es if p.get("_all") else (rng.choice(es),)): cases.append({"p": i, "e": e, "args": [list(x) for x in a], "input": list(b)})
        if n:
            if p.get("_hostile"):
                g = Inp(p, rng)
                ats = args_of(p["defs"][p["main"]])
                for b in hostile_inputs(p, rng, n):
                    a = [arg_value(t, rng, (0, 1, 2), p["defs"]) for t in ats]
                    cases.append({"p": i, "e": rng.choice(es), "args": a, "input": b})
            cases += cases_for(p, rng, i, n, p.get("_prefix", 0), all_entries=p.get("_all", False), argsets=p.get("_args"))
        if n and not p.get("_args") and rng.random() < 0.5:     # zeros, cut anywhere
            ats = args_of(p["defs"][p["main"]])
            cases.append({"p": i, "e": rng.choice(es), "args": [arg_value(t, rng, (0, 1, 2), p["defs"]) for t in ats], "input": [0] * (rng.randrange(0, 14) if rng.random() < 0.7 else rng.randrange(14, 80))})
        for b in p.get("_inputs", []):
            for e in (es if p.get("_all") else (rng.choice(es),)):
                ats = args_of(p["defs"][p["main"]])
                a = rng.choice(p["_args"]) if p.get("_args") else [arg_value(t, rng, (0, 1, 2), p["defs"]) for t in ats]
                cases.append({"p": i, "e": e, "args": a, "input": list(b)})
    return cases
