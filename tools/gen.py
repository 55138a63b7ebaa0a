"""Definitions (programs), inputs and cases.

A program is the JSON form of the TLA+ record used by spec/*.tla, plus rendering hints (render.py).
"""
import json, random

# ---------------------------------------------------------------- types
def T(k): return {"k": k}
U8, U16, U32, U64, U128 = (T("u%d" % b) for b in (8, 16, 32, 64, 128))
I8, I16, I32, I64, I128 = (T("i%d" % b) for b in (8, 16, 32, 64, 128))
F32, F64, BOOL, USIZE, STR, SLICE, ENDIAN = T("f32"), T("f64"), T("bool"), T("usize"), T("str"), T("slice"), T("endian")
INTS = ["u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"]
NUMS = INTS + ["f32", "f64"]
W = {"u8": 1, "i8": 1, "bool": 1, "endian": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "f32": 4, "char": 4, "u64": 8, "i64": 8, "f64": 8,
     "usize": 8, "isize": 8, "u128": 16, "i128": 16}
def opt(t): return {"k": "opt", "t": t}
def vec(t): return {"k": "vec", "t": t}
def arr(t, n): return {"k": "arr", "t": t, "n": n}
def tup(a, b): return {"k": "tup", "a": a, "b": b}
def ld(l): return {"k": "ld", "l": l}
def D(n): return {"k": "def", "d": n}
PHANTOM = {"k": "phantom"}
CUSL, CUSB, TRI = {"k": "cus", "w": "u16", "e": "le"}, {"k": "cus", "w": "u32", "e": "be"}, {"k": "cus", "w": "u16", "e": "tri"}

# ---------------------------------------------------------------- expressions
def lit(n, sf=""): return {"op": "lit", "n": n, "sf": sf} if sf else {"op": "lit", "n": n}
def var(x): return {"op": "var", "x": x}
def us(e): return {"op": "as", "l": e}
def isz(e): return {"op": "asi", "l": e}
def add(l, r): return {"op": "add", "l": l, "r": r}
def sub(l, r): return {"op": "sub", "l": l, "r": r}
def mul(l, r): return {"op": "mul", "l": l, "r": r}
def mod(l, n): return {"op": "mod", "l": l, "n": n}
def neg(l): return {"op": "neg", "l": l}
def cmp_(op, l, r): return {"op": op, "l": l, "r": r}
def eq(l, r): return cmp_("eq", l, r)
def lt(l, r): return cmp_("lt", l, r)
def gt(l, r): return cmp_("gt", l, r)
def band(l, r): return {"op": "and", "l": l, "r": r}
def bor(l, r): return {"op": "or", "l": l, "r": r}
def bnot(l): return {"op": "not", "l": l}
def tf(b): return {"op": "bool", "b": b}
def bvar(x): return {"op": "bvar", "x": x}
def is_some(x): return {"op": "some", "x": x}
def vlen(x): return {"op": "vlen", "x": x}
SELF, SLEN, ILEN = {"op": "self"}, {"op": "slen"}, {"op": "ilen"}
def ite(c, l, r): return {"op": "ite", "c": c, "l": l, "r": r}
def lg(i, e): return {"op": "lg", "id": i, "l": e}
BE, LE = {"op": "end", "v": "be"}, {"op": "end", "v": "le"}
def eite(c): return {"op": "eite", "c": c}
def evar(x): return {"op": "evar", "x": x}

# ---------------------------------------------------------------- user parsers
def num(w, e="be"): return {"p": "num", "w": w, "e": e}
def ptake(n): return {"p": "take", "n": n}
def pty(t, e="be", re=None):
    r = {"p": "ty", "t": t, "e": e}
    if re: r["re"] = re
    return r
def callx(d, args, e="be", re=None):
    r = {"p": "callx", "d": d, "args": args, "e": e}
    if re: r["re"] = re
    return r
def perr(hard=False): return {"p": "err", "hard": hard, "kind": "Digit"}
def pldata(w, e="be"): return {"p": "ldata", "w": w, "e": e}
def psub(n, f): return {"p": "sub", "n": n, "f": f}
def plog(i, f): return {"p": "lg", "id": i, "f": f}
def pcond(n, f): return {"p": "cond", "n": n, "f": f}
REST = {"p": "rest"}

# ---------------------------------------------------------------- attributes
def A(a, **kw):
    r = {"a": a}; r.update(kw); return r
def Count(e, **k): return A("Count", e=e, **k)
def Cond(e, **k): return A("Cond", e=e, **k)
def Verify(e, **k): return A("Verify", e=e, **k)
def ErrorIf(e, **k): return A("ErrorIf", e=e, **k)
def Parse(f, **k): return A("Parse", f=f, **k)
def LCount(f, **k): return A("LengthCount", f=f, **k)
def Take(e, **k): return A("Take", e=e, **k)
def Tag(b, **k): return A("Tag", b=list(b), **k)
def Value(e, **k): return A("Value", e=e, **k)
def Map(m, **k): return A("Map", m=m, **k)
def Into(m, **k): return A("Into", m=m, **k)
def Pre(s, **k): return A("PreExec", s=s, **k)
def Post(s, **k): return A("PostExec", s=s, **k)
def SetE(e, **k): return A("SetEndian", e=e, **k)
def Pos(a, e, **k): return A(a, e=e, **k)      # Align*, Skip*, Move, MoveAbs
IGN, COMPLETE, DEBUG, BIG, LITTLE, EXACT = (A(x) for x in ("Ignore", "Complete", "Debug", "BigEndian", "LittleEndian", "Exact"))
def Sel(t, **k): return A("Selector", t=t, **k)
def Extra(*ps): return A("ExtraArgs", ps=[{"n": n, "t": t} for n, t in ps])
def InName(n, **k): return A("InputName", n=n, **k)
GENERR = A("GenericErrors")
DBGDERIVE = A("DebugDerive")
def cv(c, **k): return dict({"c": c}, **k)
def mk(i): return {"s": "mk", "id": i}
def mv(i, x): return {"s": "mv", "id": i, "x": x}
def let(x, t, e): return {"s": "let", "x": x, "t": t, "e": e}
def rd(x, t, e="be"): return {"s": "rd", "x": x, "t": t, "e": e}
def adv(n): return {"s": "adv", "n": n}
def win(n): return {"s": "win", "n": n}
UNWIN = {"s": "unwin"}
def push(x, e): return {"s": "push", "x": x, "e": e}
def built(i): return {"s": "built", "id": i}

# ---------------------------------------------------------------- definitions
def F(n, t, *attrs, **k): return dict({"n": n, "t": t, "attrs": list(attrs)}, **k)
def struct(fields, *attrs, drv="Nom", shape="named", **k):
    if shape == "unnamed":
        fields = [dict(f, n="_%d" % j) for j, f in enumerate(fields)]
    return dict({"kind": "struct", "drv": drv, "attrs": list(attrs), "shape": shape, "fields": fields}, **k)
def variant(n, pat, fields=(), *attrs, shape=None, guard=None, sattr=None, st=None, **k):
    fields = list(fields)
    if shape is None: shape = "unnamed" if fields else "unit"
    if shape == "unnamed": fields = [dict(f, n="_%d" % j) for j, f in enumerate(fields)]
    g = guard if guard is not None else tf(True)
    sa = {"a": "Selector", "pat": pat, "hasguard": guard is not None, "guard": g}
    if st: sa["st"] = st
    at = list(attrs) + [sa] if k.pop("last", False) else [sa] + list(attrs)
    return dict({"n": n, "pat": pat, "hasguard": guard is not None, "guard": g, "shape": shape, "attrs": at, "fields": fields}, **k)
def enum(sel, variants, *attrs, drv="Nom", **k):
    return dict({"kind": "enum", "drv": drv, "attrs": [Sel(sel)] + list(attrs), "variants": variants, "shape": "enum", "fields": []}, **k)
def plit(n): return {"p": "lit", "n": n}
def prange(a, b): return {"p": "range", "lo": a, "hi": b}
def pfrom(a): return {"p": "from", "lo": a}
def por(*ps): return {"p": "or", "ps": list(ps)}
WILD = {"p": "wild"}
def pbind(x): return {"p": "bind", "x": x}
def pat_at(x, q): return {"p": "at", "x": x, "q": q}
def fieldless(repr_, vals, *attrs, drv="Nom", names=None, **k):
    """vals: list of ints or None (implicit)"""
    vs, cur = [], 0
    for j, v in enumerate(vals):
        if v is not None: cur = v
        d = {"n": names[j] if names else "V%d" % j, "disc": list((cur & ((1 << (8 * W[repr_])) - 1)).to_bytes(W[repr_], "big")), "attrs": []}
        if v is not None: d["x"] = str(v)
        vs.append(d); cur += 1
    return dict({"kind": "fieldless", "drv": drv, "attrs": list(attrs), "variants": vs, "repr": repr_, "shape": "enum", "fields": []}, **k)
def typ(t): return {"kind": "type", "drv": "Nom", "attrs": [], "t": t, "fields": [], "shape": "type", "variants": []}

def has(d, a): return any(x["a"] == a for x in d["attrs"])
def prog(defs, main="S", err=None, cfg="alloc", **k):
    if not isinstance(defs, dict) or "kind" in defs: defs = {main: defs}
    if err is None:
        ge = [d for d in defs.values() if has(d, "GenericErrors")]
        err = "default" if defs[main]["kind"] != "type" and not has(defs[main], "GenericErrors") else "chain"
    return dict({"defs": defs, "main": main, "err": err, "cfg": cfg}, **k)
def args_of(d): 
    return [a["t"] for a in d["attrs"] if a["a"] == "Selector"] + [p["t"] for a in d["attrs"] if a["a"] == "ExtraArgs" for p in a["ps"]]

# ---------------------------------------------------------------- inputs
def literals(x, acc=None):
    """numbers that the definition compares with"""
    if acc is None: acc = set()
    if isinstance(x, dict):
        if x.get("op") == "lit": acc.add(x["n"])
        if x.get("p") == "lit": acc.add(x["n"])
        if x.get("p") == "range": acc.add(x["lo"]); acc.add(x["hi"]); acc.add(x["hi"] + 1)
        if x.get("p") == "from": acc.add(x["lo"])
        for v in x.values(): literals(v, acc)
    elif isinstance(x, list):
        for v in x: literals(v, acc)
    return acc

class Inp:
    """byte strings biased towards what the definition looks at"""
    def __init__(s, p, rng):
        s.p, s.rng = p, rng
        s.lits = sorted(x for x in literals(p["defs"]) if -1000 <= x < 70000) or [0]
    def n(s, w, e=None, small=False):
        r = s.rng; c = r.random()
        if small or c < 0.5: v = r.choice([0, 1, 1, 2, 2, 3, 3, 4])
        elif c < 0.72: v = r.choice(s.lits) + r.choice([0, 0, 0, 1, -1])
        elif c < 0.78: v = r.choice([5, 6, 7, 8, 9, 12, 16])
        elif c < 0.84: v = r.choice([127, 128, 255, -1, -2, 1 << (8 * w - 1), (1 << (8 * w - 1)) - 1])
        else: return [r.randrange(256) for _ in range(w)]
        b = list((v & ((1 << (8 * w)) - 1)).to_bytes(w, "big"))
        if e == "le" or (e is None and r.random() < 0.4): b.reverse()
        return b
    def utf8(s):
        r = s.rng
        return list("".join(r.choice(["a", "Z", "0", "é", "ß", "日", "€", "😀", "\u07ff", "\u0800", "\uffff", "\U00010000", "\x7f"]) for _ in range(r.randrange(0, 4))).encode())
    def ty(s, t, depth=0):
        r = s.rng; k = t["k"]
        if k in W: return s.n(W[k])
        if k == "opt": return s.ty(t["t"], depth) if r.random() < 0.75 else []
        if k == "vec": return sum((s.ty(t["t"], depth) for _ in range(r.randrange(0, 4))), [])
        if k == "arr": return sum((s.ty(t["t"], depth) for _ in range(t["n"])), [])
        if k == "tup": return s.ty(t["a"], depth) + s.ty(t["b"], depth)
        if k == "str":
            b = s.utf8()
            if r.random() < 0.3 and b: b[r.randrange(len(b))] = r.choice([0xff, 0xc0, 0xed, 0xf4, 0x80, 0xe0, 0xf0, 0xc2])
            return list(max(0, len(b) + r.choice([0, 0, 0, 0, 1, -1])).to_bytes(4, "big")) + b
        if k == "ld":
            n = r.randrange(0, 5)
            return list(n.to_bytes(W.get(t["l"]) or r.choice([1, 2]), r.choice(["big", "little"]))) + [r.randrange(256) for _ in range(n)]
        if k == "slice": return [r.randrange(256) for _ in range(r.randrange(0, 4))]
        if k == "cus": return s.n(W[t["w"]])
        if k == "def": return s.d(s.p["defs"][t["d"]], depth + 1)
        return []
    def d(s, d, depth=0):
        r = s.rng
        if depth > 3: return []
        if d["kind"] == "type": return s.ty(d["t"])
        if d["kind"] == "fieldless":
            b = list(r.choice(d["variants"])["disc"])
            if r.random() < 0.5: b.reverse()
            return b if r.random() < 0.8 else s.n(W[d["repr"]])
        out = []
        if d["kind"] == "struct": fs = d["fields"]
        else: fs = r.choice(d["variants"])["fields"] if d["variants"] else []
        for f in fs:
            tm = next((a for a in f["attrs"] if a["a"] in ("Tag", "Take", "Parse", "Value", "Ignore")), None)
            pad = next((a for a in f["attrs"] if a["a"] in ("SkipBefore", "AlignBefore", "Move", "MoveAbs", "SkipAfter", "AlignAfter")), None)
            if tm is None: 
                if any(a["a"] == "LengthCount" for a in f["attrs"]): out += s.n(1, small=True)
                out += s.ty(f["t"], depth)
                if any(a["a"] in ("Count",) for a in f["attrs"]): out += s.ty(f["t"], depth)
            elif tm["a"] == "Tag": 
                b = list(tm["b"])
                if b and r.random() < 0.2: b[r.randrange(len(b))] ^= r.choice([1, 0x20, 0x80, 2])
                out += b
            elif tm["a"] == "Take": out += [r.randrange(256) for _ in range(r.randrange(0, 5))]
            elif tm["a"] == "Parse":
                g = tm["f"]
                while g["p"] in ("lg", "cond", "sub"): g = g["f"]
                if g["p"] == "num": out += s.n(W[g["w"]])
                elif g["p"] == "ty": out += s.ty(g["t"], depth)
                elif g["p"] == "callx": out += s.d(s.p["defs"][g["d"]], depth + 1)
                elif g["p"] == "ldata": out += s.ty(ld(g["w"]))
                else: out += s.n(2)
            if pad is not None: out += [r.randrange(256) for _ in range(r.randrange(0, 5))]
        return out
    def one(s):
        r = s.rng
        b = s.d(s.p["defs"][s.p["main"]])
        c = r.random()
        if c < 0.35: b = b + [r.randrange(256) for _ in range(r.randrange(0, 6))]
        elif c < 0.45 and b: b = b[:r.randrange(len(b))]
        elif c < 0.53 and b: b[r.randrange(len(b))] = r.choice([0, 1, 0xff, 0x80, r.randrange(256)])
        elif c < 0.60: b = sum((s.n(1) for _ in range(r.randrange(0, 12))), [])
        elif c < 0.9: b = b + s.n(1) + s.n(2) + s.n(1)
        return b[:40]

def arg_value(t, rng, lits=(0, 1, 2, 3), defs=None):
    k = t["k"]
    if k == "bool" or k == "endian": return [rng.randrange(2)]
    if k == "opt": return [0] if rng.random() < 0.25 else [1] + arg_value(t["t"], rng, lits, defs)
    if k == "tup": return arg_value(t["a"], rng, lits, defs) + arg_value(t["b"], rng, lits, defs)
    if k == "def": return arg_value(defs[t["d"]]["fields"][0]["t"], rng, lits, defs)
    if k in ("vec", "str") : 
        b = rng.choice([[97], [98], [97, 98], [99, 100, 101], [], [1, 2]])
        return [len(b)] + b
    if k == "char": return list(rng.choice([0x41, 0x61, 0xe9, 0x1f600]).to_bytes(4, "big"))
    w = W[k]
    v = rng.choice(list(lits) + [0, 1, 2, 3, 4, 5]) + rng.choice([0, 0, 0, 1, -1]) if rng.random() < 0.85 else rng.randrange(1 << (8 * w))
    return list((v & ((1 << (8 * w)) - 1)).to_bytes(w, "big"))

def cases_for(p, rng, pidx, n, prefixes=1, entries=("parse", "be", "le"), all_entries=False, argsets=None):
    """cases of one program: biased inputs, every prefix of some of them"""
    g = Inp(p, rng)
    d = p["defs"][p["main"]]
    ats = args_of(d)
    seen, out = set(), []
    def put(b, e, a):
        k = (tuple(b), e, tuple(map(tuple, a)))
        if k not in seen:
            seen.add(k); out.append({"p": pidx, "e": e, "args": a, "input": list(b)})
    def mkargs(): return rng.choice(argsets) if argsets else [arg_value(t, rng, [x for x in g.lits if abs(x) < 1000] or (0,), p["defs"]) for t in ats]
    for j in range(n):
        b = g.one(); a = mkargs()
        es = entries if all_entries else (rng.choice(entries),)
        for e in es: put(b, e, a)
        if j < prefixes:
            e = rng.choice(entries)
            for k in range(len(b)): put(b[:k], e, a)
    return out
