"""How definitions are written around the parser attributes: const generics, recursion, several lifetimes, arguments by
reference, selectors that are not numbers, error types, visibility and foreign attributes, definitions produced by macros."""
import json
from gen import *

INB = {"In": struct([F("x", U8), F("y", U16)]), "K": fieldless("u8", [0, 1, 3])}
def close(defs):
    for x in INB:
        if '"d": "%s"' % x in json.dumps(defs) and x not in defs: defs[x] = json.loads(json.dumps(INB[x]))
    return defs
def gp(n, t): return dict(t, gp=n)
def na(t, n, name="N"): return dict(arr(t, n), np=name)
def nlit(n, name="N"): return dict(lit(n), nm=name)
def box(t): return {"k": "box", "t": t}
BOXED = {"c": "id", "rs": "Box::new"}

def generics(rng, k):
    out = []
    its = [U8, U16, U32, D("In"), D("K"), CUSL, TRI, I16, F64, tup(U8, U16), opt(U8)]
    for n in (0, 1, 2, 3, 5):
        for t in rng.sample(its, 4) + [U8, U16]:
            if t["k"] == "tup": continue
            c = [{"n": "N", "c": n}]
            shapes = [[F("h", U8), F("a", na(t, n)), F("z", U16)], [F("a", na(t, n)), F("b", vec(U8), Count(nlit(n))), F("z", U8)], [F("o", opt(na(t, n))), F("z", U8)],
                      [F("s", SLICE, Take(nlit(n))), F("a", na(t, n), LITTLE), F("z", U8, Pos("SkipBefore", nlit(n)))], [F("c", opt(U16), Cond(gt(nlit(n), lit(2)))), F("a", vec(na(t, n)), Count(lit(2))), F("z", U8)],
                      [F("h", U8), F("a", na(t, n), IGN), F("z", U8)], [F("h", U8), F("z", U8, Pos("AlignBefore", add(nlit(n), lit(1)))), F("y", U8, ErrorIf(eq(var("h"), us(nlit(n)) if False else lit(n))))]]
            for fs in rng.sample(shapes, 2 + k):
                if any(f["t"]["k"] == "arr" and any(a["a"] == "Ignore" for a in f["attrs"]) and t["k"] in ("def", "cus", "tup") for f in fs): continue
                fs = [json.loads(json.dumps(f)) for f in fs]
                if any(a["a"] == "Ignore" for f in fs for a in f["attrs"]): # arrays have a Default for fixed sizes only
                    continue
                at = [[], [BIG], [LITTLE], [GENERR] if "In" not in json.dumps(t) and '"K"' not in json.dumps(t) else []][rng.randrange(4)]
                out.append(prog(close({"S": struct(fs, *at, gen=c, drv="Nom" if at else rng.choice(["Nom", "NomLE"]))}), "S", _n=4, _all=True))
                out.append(prog(close({"S": struct([F("p", U8), F("t", D("T")), F("q", opt(D("T"))), F("z", U8)]), "T": struct(json.loads(json.dumps(fs)), gen=c)}), "S", _n=4))
            # with a type parameter as well
            d = struct([F("h", U8), F("a", na(gp("T", t), n)), F("b", gp("T", t)), F("z", U8)], gen=[{"n": "T", "t": t}, {"n": "N", "c": n}])
            out.append(prog(close({"S": d}), "S", _n=4, _all=True))
            e = enum(U8, [variant("A", plit(0), [F("_0", gp("T", t))]), variant("B", plit(1), [F("x", na(gp("T", t), n)), F("y", vec(U8), Count(nlit(n)))], shape="named"), variant("C", WILD)], drv=rng.choice(["Nom", "NomLE"]))
            e["gen"] = [{"n": "T", "t": t}, {"n": "N", "c": n}]
            out.append(prog(close({"S": e}), "S", _n=6, _args=[[[0]], [[1]], [[2]]], _all=True))
        two = struct([F("a", na(U8, n)), F("b", na(U16, (n + 1) % 4, "M")), F("c", SLICE, Take(add(nlit(n), nlit((n + 1) % 4, "M")))), F("z", U8)], gen=[{"n": "N", "c": n}, {"n": "M", "c": (n + 1) % 4}])
        out.append(prog({"S": two}, "S", _n=8, _all=True))
    # defaults, bounds in every place, where-clauses
    for t in (U8, U16, I32, opt(U16), arr(U8, 2)):
        for b, wh, df in (("core::fmt::Debug", "", ""), ("core::fmt::Debug + Clone", "T: PartialEq", ""), ("", "T: core::fmt::Debug + Clone, Vec<T>: Clone", ""), ("", "", "u8"), ("Clone", "T: Sized", "u16")):
            g = {"n": "T", "t": t}
            if b: g["b"] = b
            if df: g["df"] = df
            for sh in ("named", "unnamed"):
                out.append(prog({"S": struct([F("a", gp("T", t)), F("b", opt(gp("T", t))), F("p", {"k": "phantom", "t": gp("T", t)}), F("z", U8)], gen=[g], wh=wh, shape=sh)}, "S", _n=3, _all=True))
                out.append(prog({"S": struct([F("a", gp("T", t)), F("s", SLICE, Take(lit(2))), F("z", U8)], gen=[g], wh=wh, shape=sh)}, "S", _n=3, _all=True))
            e = enum(U8, [variant("A", plit(0), [F("_0", gp("T", t))]), variant("B", WILD, [F("x", U8), F("s", SLICE, Take(var("x")))], shape="named")])
            e.update(gen=[g], wh=wh)
            out.append(prog({"S": e}, "S", _n=4, _all=True, _args=[[[0]], [[1]]]))
            out.append(prog({"S": struct([F("a", gp("T", t)), F("v", vec(gp("T", t)), Count(var("n"))), F("z", U8)], Extra(("n", U8)), gen=[g], wh=wh)}, "S", _n=4, _all=True) if t["k"] not in ("opt",) else
                       prog({"S": struct([F("a", gp("T", t)), F("z", U8)], Extra(("n", U8)), gen=[g], wh=wh)}, "S", _n=4))
    # many parameters, some bounded
    for m in (3, 4, 5, 6):
        for _ in range(2):
            ps = [(chr(65 + j), rng.choice([U8, U16, U32, I16, opt(U8), arr(U8, 2)]), rng.choice(["", "Copy", "Clone + PartialEq", "core::fmt::Debug"])) for j in range(m)]
            gen = [dict({"n": x, "t": t}, **({"b": b} if b else {})) for x, t, b in ps]
            fs = [F("f%d" % j, gp(x, t), *rng.choice([[], [], [BIG], [LITTLE]])) for j, (x, t, b) in enumerate(ps)]
            if rng.random() < 0.5: fs.insert(rng.randrange(m + 1), F("s", SLICE, Take(lit(2))))
            out.append(prog({"S": struct(fs, gen=gen, shape=rng.choice(["named", "unnamed"]), wh=rng.choice(["", "C: Sized"]))}, "S", _n=4, _all=True))
            e = enum(U8, [variant("A", plit(0), [dict(f, n="_0") for f in fs[:1]]), variant("B", WILD, fs, shape="named")])
            e["gen"] = gen
            out.append(prog({"S": e}, "S", _n=4, _all=True, _args=[[[0]], [[1]]]))
    # lifetimes: several, related, next to type parameters
    S2 = dict(SLICE, lt="'b")
    for ltb in ({}, {"'a": ": 'b"}, {"'b": ": 'a"}):
        for at, drv in (([], "Nom"), ([LITTLE], "Nom"), ([], "NomLE"), ([GENERR], "Nom")):
            out.append(prog({"S": struct([F("n", U16), F("a", SLICE, Take(mod(var("n"), 3))), F("b", S2, Take(lit(2))), F("c", opt(S2), Cond(gt(var("n"), lit(1))), Take(lit(1)))], *at, drv=drv, ltb=ltb)}, "S", _n=5, _all=True))
            if not at or at[0]["a"] != "GenericErrors":
                out.append(prog({"S": struct([F("h", U8), F("t", D("T")), F("z", U16)]), "T": struct([F("a", SLICE, Take(lit(1))), F("b", S2, Tag([1]))], *at, drv=drv, ltb=ltb, shape="unnamed")}, "S", _n=5, _all=True))
        e = enum(U8, [variant("A", plit(0), [F("_0", SLICE, Take(lit(2)))]), variant("B", WILD, [F("x", U8), F("s", S2, Take(var("x")))], shape="named")])
        e["ltb"] = ltb
        out.append(prog({"S": e}, "S", _n=6, _all=True, _args=[[[0]], [[1]]]))
        g = struct([F("a", SLICE, Take(lit(1))), F("t", gp("T", U16)), F("b", S2, Take(lit(2)))], gen=[{"n": "T", "t": U16, "b": "Clone"}], ltb=ltb, wh="T: core::fmt::Debug")
        out.append(prog({"S": g}, "S", _n=5, _all=True))
    return out

def recursion(rng, k):
    out = []
    for at, drv in (([], "Nom"), ([LITTLE], "Nom"), ([], "NomLE"), ([COMPLETE], "Nom"), ([GENERR], "Nom")):
        # a tree by counts, a list by a condition, both with data around
        tree = struct([F("n", U8), F("w", U16), F("c", vec(D("T")), Count(mod(var("n"), 4))), F("z", U8)], *at, drv=drv)
        lst = struct([F("n", U8), F("v", U16), F("next", opt(box(D("L"))), Cond(gt(var("n"), lit(1))), Map(BOXED), Parse(pty(D("L"), "be", "parse"))), F("z", U8)], *at, drv=drv)
        # the type parser called inside Parse uses the default entry point: big-endian
        inp = [[0, 0, 1, 9], [1, 0, 1, 0, 5, 6, 7, 8], [2, 0, 1, 1, 0, 2, 0, 0, 3, 9, 4, 0, 7, 5, 5, 5], [3, 1, 1] + [0, 2, 2, 3] * 3 + [7, 7], [1, 1, 1] * 12 + [0, 0, 1, 4] + [9] * 12, [2] * 30, [5, 1, 2, 5, 3, 4, 0, 0, 1, 9, 8, 7]]
        for m, d in (("T", tree), ("L", lst)):
            out.append(prog({m: d}, m, _inputs=inp, _n=6, _all=True, _prefix=1))
            if not at or at[0]["a"] != "GenericErrors":
                out.append(prog({m: d, "S": struct([F("h", U8), F("o", opt(D(m))), F("q", U8)])}, "S", _inputs=[[7] + x for x in inp], _n=4, _all=True))
                out.append(prog({m: d, "S": struct([F("v", vec(D(m)))])}, "S", _inputs=inp, _n=3))
        # through an enum and an argument
        node = enum(U8, [variant("Leaf", plit(0), [F("_0", U16)]), variant("Bin", plit(1), [F("k", U8), F("a", box(D("E")), Map(BOXED), Parse(callx("E", [mod(var("k"), 3)], "be", "parse"))), F("b", box(D("E")), Map(BOXED), Parse(callx("E", [lit(0)], "le")))], shape="named"), variant("Seq", WILD, [F("_0", vec(D("W")), LCount(num("u8")))])], *at, drv=drv)
        if not at or at[0]["a"] != "GenericErrors":
            w = struct([F("t", U8), F("e", box(D("E")), Map(BOXED), Parse(callx("E", [mod(var("t"), 3)], "be")))], shape="named")
            out.append(prog({"E": node, "W": w}, "E", _args=[[[0]], [[1]], [[2]]], _inputs=[[1, 0, 5, 6, 7], [0, 1, 2, 3, 4], [2, 0, 1, 2, 1, 0, 1, 2, 3, 4], [2, 0, 0, 0, 1], [1, 1, 1, 0, 3, 3, 4, 4, 5, 5, 6, 6], [1] * 12, [3, 1, 0, 7, 7, 6, 6, 0, 9, 9, 2, 1, 0, 8, 8]], _n=8, _all=True))
        # mutual recursion with borrowed data
        a = struct([F("n", U8), F("s", SLICE, Take(mod(var("n"), 3))), F("b", vec(D("B")), Count(mod(var("n"), 2)))], *at, drv=drv)
        b = struct([F("k", U16), F("a", vec(D("A")), LCount(num("u8")))], *at, drv=drv)
        out.append(prog({"A": a, "B": b}, "A", _inputs=[[1, 9, 0, 1, 0], [3, 0, 1, 1, 3, 0, 2, 0, 7], [1, 5, 0, 2, 2, 1, 6, 0, 0, 0, 0, 4, 4], [0], [1] * 14, [2, 8, 8, 1]], _n=6, _all=True, _prefix=1))
    return out

XR, YR = dict(vec(U8), rf="&"), dict(vec(U8), rf="&mut ", mt=1)
def refargs(rng, k):
    """arguments taken by reference, read and modified"""
    out = []
    args = [[[2, 1, 2], [0]], [[0], [1, 9]], [[3, 4, 5, 6], [2, 7, 7]], [[1, 0], [0]]]
    def two(fs, *top, **kw):
        a = [Extra(("x", XR), ("y", YR))] + list(top); rng.shuffle(a)
        return prog({"S": struct(fs, *a, **kw)}, "S", _args=args, _n=6, _all=True)
    posts = lambda: [Post(mv(90, "y"))]
    for sh in ("named", "unnamed"):
        nm = (lambda j: "_%d" % j) if sh == "unnamed" else (lambda j: "f%d" % j)
        out.append(two([F(nm(0), U8, Post(push("y", var(nm(0))))), F(nm(1), U16), F(nm(2), vec(U8), Count(vlen("x"))), F(nm(3), U8, Pre(push("y", lit(3))), Post(push("y", var(nm(3)))), Post(mv(1, "y")))], *posts(), shape=sh))
        out.append(two([F(nm(0), U8), F(nm(1), opt(U16), Cond(gt(vlen("x"), lit(1)))), F(nm(2), SLICE, Take(vlen("y")), Pre(push("y", var(nm(0))))), F(nm(3), U8, ErrorIf(gt(vlen("y"), lit(2))), Post(push("y", lit(5))))], Pre(push("y", lit(1))), Pre(mv(2, "y")), *posts(), shape=sh))
        out.append(two([F(nm(0), U16, Pos("SkipBefore", vlen("x")), Pre(mv(4, "x"))), F(nm(1), U8, SetE(eite(gt(vlen("y"), lit(0)))), Post(push("y", lit(8)))), F(nm(2), U16), F(nm(3), U16, SetE(eite(gt(vlen("y"), lit(1)))))], shape=sh))
    e = lambda *top: enum(U8, [variant("A", plit(0), [F("_0", U8, Post(push("y", var("_0")))), F("_1", vec(U8), Count(vlen("x")))]), variant("B", plit(1), [F("p", U8), F("q", U8, Pre(push("y", lit(4))), Pre(mv(7, "y")))], shape="named"), variant("G", pbind("s"), [F("_0", U16)], guard=gt(vlen("y"), lit(0))), variant("C", WILD)], Extra(("x", XR), ("y", YR)), *top)
    for top in ([], [Post(mv(91, "y"))], [Pre(push("y", lit(2))), Post(push("y", lit(6))), Post(mv(91, "y"))]):
        out.append(prog({"S": e(*top)}, "S", _args=[[[s]] + a for s in (0, 1, 2) for a in args], _n=12, _all=True))
    # passed on to another type
    sub_ = struct([F("a", U8), F("v", vec(U8), Count(vlen("x")))], Extra(("x", XR)))
    out.append(prog({"S": struct([F("h", U8), F("t", D("T"), Parse(callx("T", [var("x")], "be"))), F("u", vec(D("T")), Count(lit(2)), Parse(callx("T", [var("x")], "le")))], Extra(("x", XR))), "T": sub_}, "S", _args=[[a[0]] for a in args], _n=6, _all=True))
    return out

def flat(v, rs): return {"p": "flat", "v": list(v), "rs": rs}
def selectors(rng, k):
    """selectors that are not numbers: strings, byte slices, user enums, constants"""
    out = []
    strs = [b"a", b"b", b"ab", b"cde", b""]
    sv = lambda s: [len(s)] + list(s)
    T_ = dict(STR, rf="&", own="String", rs="&str")
    q = lambda s: '"%s"' % s.decode()
    for order in range(3):
        vs = [variant("A", flat(sv(b"a"), q(b"a")), [F("_0", U8)]), variant("B", por(flat(sv(b"b"), q(b"b")), flat(sv(b"ab"), q(b"ab"))), [F("x", U16), F("y", U8)], shape="named"), variant("L", pbind("s"), [F("_0", vec(U8), Count(vlen("s")))], guard=gt(vlen("s"), lit(2))), variant("D", WILD, [F("_0", U32)])]
        if order == 1: vs = vs[::-1]
        if order == 2: vs = [vs[2], vs[3], vs[0], vs[1]]
        for nodef in (False, True):
            v2 = [v for v in vs if not (nodef and v["n"] == "D")]
            for st in (None, "s"):
                v3 = json.loads(json.dumps(v2))
                if st:
                    for v in v3:
                        for a in v["attrs"]:
                            if a["a"] == "Selector": a["st"] = "s"
                out.append(prog({"S": enum(T_, v3)}, "S", _grid=[([1, 2, 3, 4, 5], [sv(s)]) for s in strs], _n=4, _args=[[sv(s)] for s in strs], _all=True))
    BT = dict(vec(U8), rf="&", rs="&[u8]", own="Vec<u8>")
    byts = [[1, 2], [1], [9, 9, 9], [], [2, 2]]
    vs = [variant("A", flat([2, 1, 2], "[1, 2]"), [F("_0", U8)]), variant("B", flat([3, 9, 9, 9], 'b"\\x09\\x09\\x09"'), [F("_0", U16)]), variant("L", pbind("s"), [F("_0", vec(U8), Count(vlen("s")))], guard=gt(vlen("s"), lit(1))), variant("D", WILD)]
    out.append(prog({"S": enum(BT, vs)}, "S", _grid=[([1, 2, 3, 4, 5], [[len(s)] + s]) for s in byts], _n=4, _args=[[[len(s)] + s] for s in byts], _all=True))
    # a user enum with data: Kind::A | Kind::B(x) | Kind::C { k, .. }
    KIND = """#[derive(Clone, Copy, PartialEq, Eq, Debug)] pub enum Kind { A, B(u8), C { k: u8, l: bool } }
impl FromFlat for Kind { fn from_flat(v: &[u8]) -> Self { match v[0] { 0 => Kind::A, 1 => Kind::B(v[1]), _ => Kind::C { k: v[1], l: v[2] != 0 } } } }
pub const KA: Kind = Kind::A; pub const NINE: u8 = 9; pub mod cs { pub const SEVEN: u8 = 7; }
"""
    KT = {"k": "ksel", "rs": "Kind"}
    def ctor(v, rs, x=None): return dict({"p": "ctor", "v": v, "rs": rs}, **({"x": x, "t": U8} if x else {}))
    kargs = [[[0]], [[1, 0]], [[1, 9]], [[1, 7]], [[2, 1, 0]], [[2, 9, 1]], [[1, 3]]]
    base = [variant("A", ctor([0], "Kind::A"), [F("_0", U8)]), variant("N", ctor([1, 9], "Kind::B(NINE)"), [F("_0", U16)]), variant("Z", ctor([1, 7], "Kind::B(cs::SEVEN)"), []), variant("B", ctor([1], "Kind::B(x)", "x"), [F("_0", vec(U8), Count(var("x")))], guard=lt(var("x"), lit(5))),
            variant("K", ctor([2, 9], "Kind::C { k: NINE, .. }"), [F("m", U8), F("n", U8)], shape="named"), variant("M", ctor([2], "Kind::C { .. }"), [F("_0", U32)]), variant("D", WILD, [F("_0", U16)])]
    for _ in range(6 * k):
        vs = json.loads(json.dumps(base)); rng.shuffle(vs)
        vs = vs[:rng.choice([4, 5, 7])]
        for v in vs:
            for a in v["attrs"]:
                if a["a"] == "Selector" and rng.random() < 0.4: a["st"] = "s"
        p = prog({"S": enum(KT, vs, InName("inp") if rng.random() < 0.3 else COMPLETE if rng.random() < 0.2 else Post(mk(9)))}, "S", _grid=[([1, 2, 3, 4, 5, 6], a) for a in kargs], _n=0, _all=True, extra=KIND)
        out.append(p)
    # named constants and associated constants as numbers
    C = "pub const ONE: u8 = 1; pub const HI: u8 = 200; pub struct Cst; impl Cst { pub const FIVE: u8 = 5; }\n"
    cl = lambda n, rs: dict(plit(n), rs=rs)
    vs = [variant("A", cl(1, "ONE"), [F("_0", U8)]), variant("B", cl(5, "Cst::FIVE"), [F("_0", U16)]), variant("R", dict(prange(190, 200), rs="190..=HI"), [F("_0", U32)]), variant("C", dict(plit(65), rs="b'A'")), variant("M", dict(plit(255), rs="u8::MAX"), [F("_0", U8), F("_1", U8)]), variant("D", WILD)]
    for o in range(3):
        rng.shuffle(vs)
        for a in ([], [BIG]):
            out.append(prog({"S": enum(U8, vs, *a)}, "S", _grid=[([1, 2, 3, 4, 5, 6], [[x]]) for x in (0, 1, 2, 5, 65, 189, 190, 199, 200, 201, 254, 255)], _n=0, _all=True, extra=C))
    return out

DFL = {"k": "dfl"}
def defaults(rng, k):
    out = []
    for t in (DFL, arr(DFL, 2), opt(DFL), vec(DFL), arr(opt(DFL), 2), {"k": "phantom", "t": DFL}, F32, T("bool"), STR, U128, arr(U16, 3), T("usize")):
        for a in ([IGN], [dict(IGN, al="Default")], [COMPLETE, IGN], [IGN, Pos("SkipBefore", lit(1))]):
            for sh in ("named", "unnamed"):
                out.append(prog(struct([F("f0", U8), F("f1", t, *[dict(x) for x in a]), F("f2", U16)], shape=sh), _n=3))
            out.append(prog({"S": enum(U8, [variant("A", plit(0), [F("p", t, *[dict(x) for x in a]), F("q", U8)], shape="named"), variant("B", WILD, [F("_0", U8), F("_1", t, *[dict(x) for x in a])])])}, "S", _n=4, _args=[[[0]], [[1]]]))
    out.append(prog({"S": struct([F("d", D("T"), IGN), F("z", U8)]), "T": struct([F("a", DFL, IGN), F("b", U8)], der=["Default"])}, _n=3))
    return out

def errtypes(rng, k):
    """code derived with GenericErrors, with the error types of nom"""
    import fam
    out = []
    pool = [p for f in ("C01", "C12", "C08", "C09", "C07", "C13", "C10") for p in fam.FAMILIES_[f](rng, 1) if has(p["defs"][p["main"]], "GenericErrors")]
    rng.shuffle(pool)
    pool = pool[:40 * k]
    # what the error type has to offer follows from any field of any variant
    wraps = [(STR, []), (opt(STR), []), (vec(STR), [Count(lit(2))]), (opt(vec(STR)), [Cond(gt(ILEN, lit(3))), Count(lit(1))]), (vec(STR), [LCount(num("u8"))]), (opt(STR), [Cond(gt(ILEN, lit(2)))]), (vec(STR), []), (STR, [COMPLETE]), (STR, [Map(cv("id"))]), (STR, [SetE(LE)]), (vec(STR), [SetE(LE), Count(lit(1))]), (opt(STR), [SetE(eite(gt(ILEN, lit(6))))])]
    dbgs = [(U8, [DEBUG]), (opt(U16), [DEBUG, Cond(gt(ILEN, lit(2)))]), (U16, [Verify(gt(SELF, lit(2))), DEBUG]), (vec(U8), [DEBUG, Count(lit(2))]), (U16, [COMPLETE, DEBUG])]
    ins = [[0, 0, 0, 1, 65, 0, 0, 0, 2, 66, 67, 7, 8, 9], [1, 0, 0, 0, 1, 65, 0, 0, 0, 0, 3, 4, 5], [1, 2, 0, 0, 0, 1, 0xff, 4, 5], [2, 1, 0, 0, 0, 0, 0, 0, 0, 0], []]
    for t, at in wraps + dbgs:
        for j in range(3):
            fs = [F("f%d" % x, t, *json.loads(json.dumps(at))) if x == j else F("f%d" % x, U8) for x in range(3)]
            pool.append(prog({"S": struct(fs, GENERR)}, "S", _inputs=ins, _n=2, _all=True))
            if not any(a["a"] == "SetEndian" for a in at): pool.append(prog({"S": struct(fs, SetE(rng.choice([BE, LE])), GENERR)}, "S", _inputs=ins, _n=2))
            if not at or at[0]["a"] not in ("Debug", "Verify") and not any(a["a"] == "Debug" for a in at):
                pool.append(prog({"S": struct(fs, GENERR, shape="unnamed")}, "S", _inputs=ins, _n=2, _all=True))
            vs = [variant("V%d" % x, plit(x), [dict(f, n="g%d" % y) for y, f in enumerate(rng.sample(fs, 2) + [fs[j]])] if x == j else [F("a", U16)], shape="named") for x in range(3)]
            pool.append(prog({"S": enum(U8, vs, GENERR)}, "S", _grid=[(b, [[x]]) for b in ins[:4] for x in range(4)], _n=0, _all=True))
    for p in pool:
        txt = json.dumps(p["defs"])
        for e in ("pair", "unit", "nodbg", "noext"):
            if e == "nodbg" and '"Debug"' in txt: continue
            if e == "noext" and '"str"' in txt: continue
            q = json.loads(json.dumps(p)); q["err"] = e; out.append(q)
        if "_grid" in p or "_inputs" in p: out.append(p)
    return out

def generr(rng, k):
    """GenericErrors with everything a definition's head can have"""
    out = []
    errs = ["chain", "pair", "unit", "nodbg", "noext"]
    pay = [[], [F("s0", STR)], [F("d0", U16, DEBUG)], [F("l0", SLICE, Take(lit(2)))], [F("v0", vec(STR), Count(lit(1)))], [F("c0", opt(U16), Cond(gt(ILEN, lit(3))))], [F("x0", U8, ErrorIf(gt(ILEN, lit(9))))]]
    its = [U8, U16, I32, opt(U16), arr(U8, 2), STR]
    ins = [[0, 0, 0, 1, 65, 0, 0, 0, 2, 66, 67, 7, 8, 9], [1, 2, 3, 4, 5, 6, 7, 8, 9], [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 1, 0xff, 4, 5], [0, 0], []]
    for ng in (0, 1, 2):
        for con in (False, True):
            for ext in (False, True):
                for kind in ("struct", "tuple", "enum"):
                    for py in rng.sample(pay, 4):
                        if kind == "tuple" and any(a["a"] == "Debug" for f in py for a in f["attrs"]): continue
                        ts = [rng.choice(its) for _ in range(ng)]
                        gen = [dict({"n": "TU"[j], "t": t}, **rng.choice([{}, {"b": "Clone"}])) for j, t in enumerate(ts)] + ([{"n": "N", "c": 2}] if con else [])
                        fs = [F("g%d" % j, rng.choice([lambda x: x, opt, lambda x: arr(x, 1)])(gp("TU"[j], t))) for j, t in enumerate(ts)] + ([F("n0", na(U8, 2))] if con else []) + json.loads(json.dumps(py)) + [F("z", U8)]
                        rng.shuffle(fs)
                        if any(f["t"]["k"] == "arr" and f["t"]["t"]["k"] == "arr" for f in fs): continue
                        drv = rng.choice(["Nom", "Nom", "NomBE", "NomLE"])
                        at = [GENERR] + ([Extra(("q", U8), ("r", BOOL))] if ext else []) + rng.choice([[], [COMPLETE], [EXACT], [Pre(mk(3))], [InName("inp")], [Post(mk(4))]]) + ([rng.choice([[BIG], [LITTLE], [], [SetE(BE)], [SetE(LE)]])] if drv == "Nom" else [[]])[0]
                        rng.shuffle(at)
                        at = [dict(a) for a in at]
                        wh = rng.choice(["", "T: core::fmt::Debug", "T: core::fmt::Debug,"]) if ng else ""
                        if kind == "enum":
                            fs2 = [F("e%d" % j, f["t"], *[dict(a) for a in f["attrs"]]) for j, f in enumerate(fs)]
                            pos = rng.randrange(3)
                            vs = [variant("V%d" % x, WILD if x == 2 else plit(x), fs2 if x == pos else [F("a", U16)] if rng.random() < 0.6 else [], shape="named" if x == pos or rng.random() < 0.5 else None) for x in range(3)]
                            for v in vs:
                                if not v["fields"]: v["shape"] = "unit"
                            d = enum(U8, vs, *at, drv=drv)
                            d.update(gen=gen, wh=wh)
                            if not ext: kw = {"_grid": [(b, [[x]]) for b in ins for x in (0, 1, 2)]}
                            else: kw = {"_grid": [(b, [[x], [5], [1]]) for b in ins for x in (0, 1, 2)]}
                        else:
                            d = struct(fs, *at, drv=drv, gen=gen, wh=wh, shape="unnamed" if kind == "tuple" else "named")
                            kw = {"_grid": [(b, [[5], [1]]) for b in ins]} if ext else {"_inputs": ins}
                        txt = json.dumps(d)
                        for e in errs:
                            if e == "nodbg" and '"Debug"' in txt: continue
                            if e == "noext" and '"str"' in txt: continue
                            p = prog({"S": d}, "S", _n=0, _all=True, **kw); p["err"] = e; out.append(p)
    return out

DOC = ["/// text\n", "#[doc = \"nom\"] ", "#[allow(dead_code)] ", "#[cfg(all())] ", "/** block */ ", "#[cfg_attr(all(), allow(unused))] ", "#[deprecated] "]
VIS = ["", "pub ", "pub(crate) ", "pub(super) ", "pub(in crate) "]
TDER = ["Clone", "Debug"]
def decorate(p, rng):
    """the same definitions with documentation, visibility and attributes of others, before and after those of nom"""
    q = json.loads(json.dumps(p))
    for d in q["defs"].values():
        if d["kind"] == "type": continue
        if rng.random() < 0.8: d["doc"] = "".join(rng.sample(DOC[:6], rng.randrange(1, 3)))
        if rng.random() < 0.5: d["doc2"] = rng.choice(DOC[:6])
        for v in d.get("variants", []):
            if rng.random() < 0.6: v["doc"] = rng.choice(DOC)
            if rng.random() < 0.5: v["doc2"] = rng.choice(DOC[:6])
        for f in list(d.get("fields", [])) + [f for v in d.get("variants", []) for f in v.get("fields", [])]:
            if rng.random() < 0.6: f["doc"] = rng.choice(DOC)
            if rng.random() < 0.5: f["doc2"] = rng.choice(DOC[:6])
            f["vis"] = rng.choice(VIS)
    return q
def decorated(rng, k):
    import fam
    pool = [p for f in ("C01", "C06", "C10", "C11", "C13", "C18") for p in rng.sample(fam.FAMILIES_[f](rng, 1), 12)]
    return [decorate(p, rng) for p in pool]

def macros(prop, rng, n):
    """definitions made by a macro, which is given types, expressions, patterns"""
    import fam
    out = []
    if prop in ("C14",): return out  # texts given to Debug contain the tokens
    pool = [p for p in fam.FAMILIES_[prop](rng, 1) if '"rs"' not in json.dumps(p["defs"]) and '"raw"' not in json.dumps(p["defs"])]
    for p in rng.sample(pool, min(len(pool), n)):
        q = json.loads(json.dumps(p)); q["macro"] = "%d" % rng.randrange(10 ** 6); out.append(q)
    return out

FNAMES = ["align", "offset", "skip", "start", "pos", "new_offset", "offset_u", "struct_def", "enum_def", "parse", "parse_be", "parse_le", "take", "tag", "count", "map", "cond", "r#type", "r#fn", "r#match", "rem", "length", "data", "r#ref", "item", "value", "x", "e", "input", "err", "r", "complete", "r#struct", "verify", "endianness", "u8_", "o", "__n__", "l"]
TNAMES = ["Parser", "Needed", "Input", "Error", "ErrorKind", "IResult", "Complete", "Streaming", "Count", "Take", "Tag", "Value", "Default_", "InputSlice", "ToUsize", "Offset", "Mode", "Emit", "Big", "Little", "Ignore", "Move", "Exact"]
def renamed(p, rng):
    """the same definitions with other names: of fields, arguments and variables, and of types"""
    q = json.loads(json.dumps(p))
    ids = set()
    def walk(o, f):
        if isinstance(o, dict):
            for k in list(o):
                v = o[k]
                if isinstance(v, str): o[k] = f(o, k, v)
                else: walk(v, f)
        elif isinstance(o, list):
            for v in o: walk(v, f)
    isid = lambda o, k: k == "x" and ("op" in o or "s" in o or "p" in o) or k == "n" and ("t" in o and "k" not in o and "shape" not in o)
    def collect(o, k, v):
        if isid(o, k) and not v.startswith("_") and not v.isupper(): ids.add(v)
        return v
    walk(q["defs"], collect)
    keep = {a["n"] for d in q["defs"].values() for a in d.get("attrs", []) if a["a"] == "InputName"} | {"i", "selector"}
    # in statements run at the end of a type these two mean the value being built
    if any(a["a"] == "PostExec" for d in q["defs"].values() for a in d.get("attrs", [])): keep |= {"struct_def", "enum_def"}
    pool = [x for x in FNAMES if x not in keep]; rng.shuffle(pool)
    ren = dict(zip(sorted(ids - keep), pool))
    walk(q["defs"], lambda o, k, v: ren.get(v, v) if isid(o, k) else v)
    tn = TNAMES[:]; rng.shuffle(tn)
    tren = dict(zip(sorted(q["defs"]), tn))
    walk(q["defs"], lambda o, k, v: tren.get(v, v) if k == "d" and isinstance(v, str) else v)
    q["defs"] = {tren[n]: d for n, d in q["defs"].items()}; q["main"] = tren[q["main"]]
    return q
def names(rng, k):
    import fam
    out = []
    for f in ("C01", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C15", "C18"):
        pool = [p for p in fam.FAMILIES_[f](rng, 1) if not any(x in json.dumps(p["defs"]) for x in ('"rs"', '"raw"', '"rn"', '"built"', '"Debug"', '"flat1"'))]
        out += [renamed(p, rng) for p in rng.sample(pool, min(len(pool), 8))]
    return out

SPELLED = ("Cond", "Count", "Verify", "ErrorIf", "Take", "Value", "AlignBefore", "AlignAfter", "SkipBefore", "SkipAfter", "Move", "MoveAbs", "SetEndian", "Parse", "LengthCount", "Map", "Tag", "PreExec", "PostExec", "Selector")
def spelled(prop, rng, n):
    """the same expressions, written in other ways"""
    import fam
    out = []
    pool = [p for p in fam.FAMILIES_[prop](rng, 1) if '"raw"' not in json.dumps(p["defs"]) and '"ldata"' not in json.dumps(p["defs"]) and '"ld"' not in json.dumps(p["defs"])]
    rng.shuffle(pool)
    for p in pool:
        if len(out) >= n: break
        q = json.loads(json.dumps(p)); hit = 0
        for d in q["defs"].values():
            for x in [d] + d.get("variants", []) + d.get("fields", []) + [f for v in d.get("variants", []) for f in v.get("fields", [])]:
                for a in x.get("attrs", []):
                    if a["a"] in SPELLED and rng.random() < 0.8: a["sp"] = rng.randrange(990); hit = 1
        if hit: out.append(q)
    return out

BY_PROP = {"C18": [generics, recursion, generr], "C15": [refargs], "C13": [refargs], "C10": [selectors], "C08": [defaults], "C14": [errtypes, generr, decorated], "C17": [names], "C16": [recursion], "C01": [recursion], "C06": [decorated, names]}
def shapes(prop, rng, k): return [p for f in BY_PROP.get(prop, []) for p in f(rng, 1)] + macros(prop, rng, 8 * k) + spelled(prop, rng, 25 * k)
def every(rng): return [p for f in (generics, recursion, refargs, selectors, defaults, errtypes, generr, decorated, names) for p in f(rng, 1)]
