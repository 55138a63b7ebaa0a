"""Long inputs and large declarations: sizes beyond 8 and 16 bits, many fields, many variants."""
from gen import *

def pat(n, s=0): return [(s + 7 * j) % 251 for j in range(n)]
def be(v, w): return list(v.to_bytes(w, "big"))
def le(v, w): return list(v.to_bytes(w, "little"))
def near(n): return [x for x in (n - 2, n - 1, n, n + 1, n + 2, n + 3, n + 7) if x >= 0]
def P(fs, inputs, *attrs, **k): return prog(struct(fs, *attrs), _n=0, _inputs=inputs, **k)

def moves(rng, k):
    out = []
    # alignments: powers of two beyond one byte, and numbers that are none
    for al in (3, 5, 6, 7, 12, 24, 100, 127, 128, 129, 192, 255, 256, 257, 300, 512):
        for lead in (1, 2, 3):
            d = "AlignBefore" if rng.random() < 0.6 else "AlignAfter"
            fs = [F("h", arr(U8, lead)), F("a", U8, Pos(d, lit(al))), F("b", U8)]
            out.append(P(fs, [pat(x, lead) for x in (al - 1, al, al + 1, al + 2, 2 * al, 2 * al + 1, lead)]))
        # exactly on a multiple, far from the start
        out.append(P([F("s", SLICE, Take(lit(al * 2))), F("a", U8, Pos("AlignBefore", lit(al))), F("b", U8, Pos("AlignBefore", lit(al)))], [pat(x) for x in (al * 2 + 1, al * 3, al * 3 + 1, al * 3 + 4)]))
        # inside a type that does not start on a multiple
        out.append(prog({"S": struct([F("p", arr(U8, 3)), F("t", D("T")), F("z", U8)]), "T": struct([F("a", U8), F("b", U8, Pos("AlignBefore", lit(al))), F("c", U8, Pos("AlignAfter", lit(al)))])}, _n=0,
                        _inputs=[pat(x) for x in (al + 2, al + 3, al + 4, 2 * al + 2, 2 * al + 3, 2 * al + 4)]))
    # data-driven alignment
    for t in (U8, U16, U32):
        out.append(P([F("n", t), F("a", U8, Pos("AlignBefore", var("n"))), F("b", U8, Pos("AlignAfter", var("n"))), F("c", U8)],
                     [be(v, W[t["k"]]) + pat(x) for v in (1, 2, 3, 5, 6, 9, 12, 16, 255) + (() if t is U8 else (256, 260, 384)) for x in (1, 8, 24, v, v + 3, 2 * v)], _args=None))
    for n in (127, 128, 255, 256, 257, 300, 511, 512, 600):
        out.append(P([F("a", U8), F("b", U8, Pos("SkipBefore", lit(n))), F("c", U8)], [pat(x) for x in near(n)]))
        out.append(P([F("a", U8, Pos("SkipAfter", lit(n))), F("c", U8)], [pat(x) for x in near(n)]))
        out.append(P([F("a", U8, Pos("Move", lit(n))), F("b", U8, Pos("Move", neg(lit(n)))), F("c", U8)], [pat(x) for x in near(n)]))
        out.append(P([F("a", U8), F("b", U8, Pos("MoveAbs", lit(n))), F("c", U8, Pos("MoveAbs", lit(n - 1)))], [pat(x) for x in near(n)]))
        out.append(prog({"S": struct([F("p", U16), F("t", D("T")), F("z", U8)]), "T": struct([F("a", U8), F("b", U8, Pos("MoveAbs", lit(n))), F("c", U8, Pos("Move", neg(lit(n + 1)))), F("d", U8)])}, _n=0, _inputs=[pat(x) for x in near(n + 2)]))
    for v in (0, 127, 128, 255, 256, 257, 300, 0x7fff, 0x8000, 0xff00, 0xffff):
        out.append(P([F("n", U16), F("a", U8, Pos(rng.choice(["SkipBefore", "MoveAbs", "SkipAfter"]), var("n"))), F("c", U8)], [be(v, 2) + pat(x) for x in (0, 1, 250, 256, 257, 258, 300, 310)]))
        w = v - 65536 if v > 32767 else v
        out.append(P([F("s", SLICE, Take(lit(200))), F("n", I16), F("a", U8, Pos("Move", var("n"))), F("c", U8)], [pat(200) + be(v, 2) + pat(x) for x in (0, 1, 250, 256, 257, 258, 300)]))
        out.append(P([F("n", T("i16")), F("a", U8, Pos("SkipBefore", lit(250)), Pos("Move", neg(isz(var("n"))))), F("c", U8)], [be(v, 2) + pat(x) for x in (250, 251, 252, 300)]))
    # beyond 16 bits
    for n in (65535, 65536, 65537, 65536 + 300):
        big = [pat(x) for x in (n + 1, n + 2, n + 3)]
        out.append(P([F("a", U8), F("b", U8, Pos("SkipBefore", lit(n - 1))), F("c", U8)], big))
        out.append(P([F("a", U8), F("b", U8, Pos("MoveAbs", lit(n))), F("c", U8, Pos("Move", neg(lit(n)))), F("d", U8)], big))
        out.append(P([F("n", U32), F("b", U8, Pos("SkipAfter", var("n"))), F("c", U8)], [be(n, 4) + x for x in big[:2]] + [be(n, 4) + pat(9)]))
    # values that differ from a small one only above 32 bits
    WIDE64 = [(1 << 32) + 1, (1 << 32) + 2, (1 << 32), (1 << 40) + 3, (1 << 63) + 2, (1 << 63), (1 << 64) - 1, (1 << 64) - 2, (1 << 33) - 1, (1 << 31), (1 << 32) - 1, 2, 3]
    for t in (U64, T("u128")):
        vals = [v for v in WIDE64]
        if t["k"] == "u128": vals = [v + hi for v in (1, 2, (1 << 32) + 2, (1 << 63) + 1) for hi in (0, 1 << 64, 1 << 127)]
        ins = [be(v, W[t["k"]]) + pat(24) for v in vals]
        for a in ("SkipBefore", "SkipAfter", "MoveAbs", "AlignBefore", "AlignAfter"):
            if a.startswith("Align") and t["k"] == "u128": continue
            out.append(P([F("n", t), F("a", U8, Pos(a, var("n"))), F("c", U8)],
                         [x for x, v in zip(ins, vals) if not (a.startswith("Align") and v % (1 << 64) == 0)]))
    for t in (I64, T("i128")):
        w = W[t["k"]]
        vals = [(1 << 32) + 1, (1 << 32), (1 << 63) - 1, -1, -2, -9, -(1 << 32), -(1 << 32) - 1, -(1 << 63) + 40, 1, 2]
        if w == 16: vals = [1, 2, -1, -2, (1 << 32) + 1, -(1 << 32) - 1]
        out.append(P([F("n", t), F("h", U8), F("a", U8, Pos("Move", var("n"))), F("c", U8)], [be(v & ((1 << 8 * w) - 1), w) + pat(24) for v in vals]))
    out.append(P([F("a", U8), F("b", U8, Pos("AlignBefore", lit(65536))), F("c", U8, Pos("AlignAfter", lit(65537)))], [pat(65537), pat(65538), pat(131074), pat(131075), pat(3)]))
    return out

def collections(rng, k):
    out = []
    # tags: what differs in any single bit is another one
    for tag in (list(b"PNG"), list(b"aZ@["), [0x5a, 0x7a, 0x40, 0x60], [0, 0x20, 0xff, 0xdf, 0xe9], list("\u00e9".encode())):
        ins = [tag + [1]]
        for j in range(len(tag)):
            for b in range(8): ins.append([x ^ ((1 << b) if i == j else 0) for i, x in enumerate(tag)] + [1])
        ins += [[x ^ 0x20 for x in tag] + [1], list(reversed(tag)) + [1], tag[1:] + [1, 2], [9] + tag + [1], tag[:1] * len(tag) + [1], tag[:-1]]
        out.append(P([F("s", SLICE, Tag(tag)), F("z", U8)], ins))
        if tag[0] == 0x50: out.append(P([F("s", vec(SLICE), Count(lit(2)), Tag(tag[:2])), F("z", U8)], [tag[:2] * 2 + [1], tag[:2] + [0x70, 0x4e, 1], [0x70, 0x6e] + tag[:2] + [1]]))
    for n in (127, 128, 129, 255, 256, 257, 300):
        for t, w in ((U8, 1), (U16, 2)):
            if t is U16 and n > 260: continue
            out.append(P([F("v", vec(t), Count(lit(n))), F("z", U8)], [pat(x) for x in (n * w - 1, n * w, n * w + 1, n * w + 3)]))
            out.append(P([F("v", arr(t, n)), F("z", U8)], [pat(x) for x in (n * w - 1, n * w, n * w + 1, n * w + 3)]))
            out.append(P([F("n", U16), F("v", vec(t), Count(var("n"))), F("z", U8)], [be(n, 2) + pat(x) for x in (n * w - 1, n * w, n * w + 1, n * w + 3)]))
            e = rng.choice(["be", "le"])
            out.append(P([F("v", vec(t), LCount(num("u16", e))), F("z", U8)], [(be if e == "be" else le)(n, 2) + pat(x) for x in (n * w - 1, n * w, n * w + 1, n * w + 3)]))
        out.append(P([F("s", SLICE, Take(lit(n))), F("z", U8)], [pat(x) for x in near(n)]))
        out.append(P([F("n", U32), F("s", SLICE, Take(var("n"))), F("z", U8)], [be(n, 4) + pat(x) for x in near(n)]))
        out.append(P([F("s", SLICE, Tag(pat(n))), F("z", U8)], [pat(x) for x in near(n)] + [pat(n - 1) + [251, 1], pat(n, 1) + [1], pat(128) + [252] + pat(9)]))
        out.append(P([F("s", STR), F("z", U8)], [be(n + (1 << 16), 4) + [65] * (n + 1), be(n + (1 << 24), 4) + [65] * (n + 1), be((1 << 31) + n, 4) + [65] * (n + 1)] + [be(n, 4) + [65 + j % 26 for j in range(x)] for x in near(n)] + [be(n, 4) + [65] * (n - 1) + [0xff, 1], be(n, 4) + [65] * (n - 2) + [0xc3, 0xa9, 1], be(n, 4) + [65] * (n - 1) + [0xc3, 0xa9, 1]]))
        for l in ("u8", "u16", "u32", "u64"):
            if n > 255 and l == "u8": continue
            e = rng.choice(["be", "le"])
            out.append(P([F("d", ld(l), Parse(pty(ld(l), e))), F("z", U8)], [(be if e == "be" else le)(n, W[l]) + pat(x) for x in near(n)]))
            out.append(P([F("d", SLICE, Parse(pldata(l, e))), F("z", U8)], [(be if e == "be" else le)(n, W[l]) + pat(x) for x in near(n)]))
    for n in (65535, 65536, 65537):
        out.append(P([F("n", U32), F("s", SLICE, Take(var("n"))), F("z", U8)], [be(n, 4) + pat(x) for x in (n - 1, n, n + 1)]))
        out.append(P([F("d", SLICE, Parse(pldata("u32", "be"))), F("z", U8)], [be(n, 4) + pat(x) for x in (n, n + 1)]))
        out.append(P([F("n", U64), F("s", vec(SLICE), Count(lit(2)), Take(var("n"))), F("z", U8)], [be(n, 8) + pat(x) for x in (n * 2, 9)]))
    for v in ((1 << 32) + 2, 1 << 32, (1 << 40) + 1, (1 << 63) + 1, (1 << 64) - 1, (1 << 31), (1 << 32) - 1, 2):
        out.append(P([F("n", U64), F("s", SLICE, Take(var("n"))), F("z", U8)], [be(v, 8) + pat(x) for x in (1, 3, 9)]))
        for l in ("u64",):
            e = rng.choice(["be", "le"])
            out.append(P([F("d", ld(l), Parse(pty(ld(l), e))), F("z", U8)], [(be if e == "be" else le)(v, 8) + pat(x) for x in (1, 3, 9)]))
            out.append(P([F("d", SLICE, Parse(pldata(l, e))), F("z", U8)], [(be if e == "be" else le)(v, 8) + pat(x) for x in (1, 3, 9)]))
    for v in ((1 << 32) + 1, 1 << 32, (1 << 40) + 1):
        out.append(P([F("n", U64), F("v", vec(U8), Count(var("n"))), F("z", U8)], [be(v, 8) + pat(x) for x in (1, 3, 9)]))
        out.append(P([F("v", vec(U16), LCount(num("u64"))), F("z", U8)], [be(v, 8) + pat(x) for x in (1, 3, 9)]))
    # nested counts above one byte
    out.append(P([F("v", vec(vec(U8)), Count(lit(3)), Count(lit(90))), F("z", U8)], [pat(x) for x in (269, 270, 271)]))
    out.append(P([F("v", vec(arr(U8, 150)), Count(lit(2))), F("z", U8)], [pat(x) for x in (299, 300, 301)]))
    out.append(P([F("v", vec(U8))], [pat(x) for x in (255, 256, 257, 300)]))
    out.append(P([F("v", vec(U16))], [pat(x) for x in (510, 511, 512, 513)]))
    return out

def wide(rng, k):
    """many fields, many variants"""
    out = []
    for nf in (17, 26, 33, 40, 64, 70):
        ts = [rng.choice([U8, U8, U8, U16, U32, opt(U8)]) for _ in range(nf)]
        for shape in ("named", "unnamed"):
            out.append(prog(struct([F("f%d" % j, t) for j, t in enumerate(ts)], shape=shape), _n=0, _inputs=[pat(x) for x in (nf, 2 * nf, 3 * nf, 4 * nf, 40)]))
        # the last one depends on the first
        out.append(P([F("f%d" % j, U8) for j in range(nf)] + [F("v", SLICE, Take(var("f0"))), F("w", U8, ErrorIf(lt(var("f1"), var("f%d" % (nf - 1)))))], [pat(x) for x in (nf, nf + 1, nf + 7)] + [[3] + pat(x) for x in (nf, nf + 1, nf + 2, nf + 9)] + [[2, 9] + [1] * (nf + 4)]))
    for nv in (17, 40, 90):
        vs = [variant("V%d" % j, plit(j), [F("_0", U8 if j % 3 else U16)]) if j % 5 else variant("V%d" % j, plit(j)) for j in range(nv)]
        out.append(prog({"S": enum(U8, vs)}, "S", _n=0, _grid=[([9, 8, 7], [[j]]) for j in range(0, 256, 5 if nv < 90 else 2)]))
        out.append(prog({"S": enum(U8, vs[:nv // 2] + [variant("W", WILD, [F("_0", U32)])] + vs[nv // 2:])}, "S", _n=0, _grid=[([9, 8, 7, 6, 5], [[j]]) for j in range(0, 256, 3)]))
    for t, w in ((U16, 2), (U32, 4), (U64, 8)):
        vals = [0, 1, 255, 256, 257, 512, 65535] + ([65536, 65537, 1 << 24] if w > 2 else [])
        vs = [variant("V%d" % j, plit(v) if v < 16000000 else plit(v - 1), [F("_0", U8)]) for j, v in enumerate(vals)]
        grid = [([9, 8], [be(v + d, w)]) for v in vals for d in (-1, 0, 1) if 0 <= v + d < (1 << (8 * w))]
        out.append(prog({"S": enum(t, vs)}, "S", _n=0, _grid=grid))
        out.append(prog({"S": enum(t, vs[:3] + [variant("R", prange(256, 300)), variant("G", pfrom(512)), variant("D", WILD)])}, "S", _n=0, _grid=grid))
    for r, w in (("u8", 1), ("u16", 2), ("i16", 2), ("u32", 4)):
        n = 200 if w == 1 else 300
        d = fieldless(r, [None] * n)
        out.append(prog(d, _n=0, _all=True, _inputs=[be(v, w) + [7] for v in range(0, 256 if w == 1 else 600, 13)] + [le(v, w) + [7] for v in (0, 1, 199, 200, 255) + (() if w == 1 else (256, 299, 300))]))
    return out

SIZES = (8, 15, 16, 16, 17, 20, 24, 31, 32, 32, 33, 40, 64, 65, 70, 100, 128, 129, 200, 255, 256, 257, 300, 400, 513)
def big_snip(rng, n, forced=()):
    """a field of n bytes or so under some wrappers, behind two numbers"""
    m = max(1, n // 2)
    t, a = rng.choice([(vec(U8), [Count(lit(n))]), (SLICE, [Take(lit(n))]), (vec(U8), [LCount(num("u16"))]), (STR, []), (SLICE, [Parse(pldata("u16"))]), (ld("u16"), [Parse(pty(ld("u16"), "be"))]), (arr(U8, n), []), (vec(U16), [Count(lit(m))]),
                       (arr(U16, m), []), (vec(U8), []), (vec(CUSL), [Count(lit(m))]), (vec(opt(U8)), [Count(lit(n))]), (arr(opt(U16), m), []), (SLICE, [Tag(pat(n))]), (vec(arr(U8, 10)), [Count(lit(max(1, n // 10)))]),
                       (vec(SLICE), [Count(lit(4)), Take(lit(max(1, n // 4)))]), (vec(vec(U8)), [Count(lit(3)), Count(lit(max(1, n // 3)))]), (vec(U8), [Take(lit(n)), ]) if False else (vec(U8), [Map(cv("tovec", id=52)), Take(lit(n))])])
    lead = be(n, 4) if t is STR else be(n, 2) if a and a[0]["a"] in ("LengthCount", "Parse") else []
    for w in [w for w in forced] + [rng.choice(["c", "d", "v", "C", "o", "p", ""]) for _ in range(rng.choice([0, 1, 1, 2]))]:
        top = a[0]["a"] if a else ""
        if w == "c": t, a = opt(t), [Cond(rng.choice([tf(True), lt(var("a0"), lit(250)), gt(ILEN, lit(3))]))] + a
        elif w == "d": a = [DEBUG] + a
        elif w == "C": a = [COMPLETE] + a
        elif w == "v" and t["k"] in ("vec", "slice") and top not in ("Map", "Debug", "Complete", "Verify"): a = [Verify(cmp_("ne", SLEN, lit(3)))] + a
        elif w == "o" and not a and t["k"] in ("vec", "arr", "str"): t = opt(t)
        elif w == "p" and top not in ("SkipBefore", "ErrorIf"): a = [rng.choice([Pos("SkipBefore", lit(1)), ErrorIf(eq(var("a0"), lit(77))), Pre(mk(1)), Pos("AlignBefore", lit(2)), Post(mk(2)), Pos("SkipAfter", lit(1))])] + a
    return t, a, lead

def bigs(rng, k, forced=(), num_=14, ctxs=None):
    import fam
    out = []
    cs = ctxs or ["named", "ename", "edefault", "inname", "generr", "xargs", "nomle", "big", "little", "setle", "nested", "nested2", "callx", "built", "split", "strsyn", "tail", "dbg", "count", "vec", "opt", "arr", "pair", "cplt", "ecplt", "exact"]
    lead_of = {"nested": 1, "nested2": 3, "callx": 1, "tail": 1, "xargs": 1, "count": 1, "vec": 1, "opt": 1, "arr": 1, "pair": 1}
    while len(out) < num_ * k:
        n = rng.choice(SIZES)
        t, a, ln = big_snip(rng, n, forced)
        c = rng.choice(cs)
        p = fam.mk_ctx(c, lambda nm: [F(nm(0), U8), F(nm(1), t, *[dict(x) for x in a]), F(nm(2), U8)])
        if p is None: continue
        ins = []
        for x in rng.sample([n - 1, n, n + 1, n + 2, n + 3, n + 9, 2 * n + 9], 4) + [n + 2, n + 4]:
            for l in ([ln, list(reversed(ln))] if ln and c in ("nomle", "little", "setle") else [ln]):
                tg = any(z["a"] == "Tag" for z in a)
                body = (pat(max(0, x)) if t["k"] == "vec" and not ln or tg else [65 + j % 26 for j in range(max(0, x))])
                ins.append(([1] * lead_of.get(c, 0) + [2] + ([0] if any(z["a"] in ("SkipBefore", "AlignBefore") for z in a) and rng.random() < 0.9 else []) + l + body))
                if c in ("arr", "pair", "count"): ins[-1] = ins[-1] + ins[-1][1:] + [9]
        ins += [x[:-n] + [v] * n for x, v in zip(rng.sample(ins, 2), (0, rng.choice([0, 255, 1]))) if len(x) > n + 3]     # of one byte only
        p["_inputs"], p["_n"] = ins, 0
        if c == "pair": p["_inputs"] = [x[:1] + x[1:] for x in ins]
        out.append(p)
    return out

FORCED = {"C05": ("C",), "C08": ("c",), "C12": ("v",), "C14": ("d",)}
BIGS = {"C01": 30, "C02": 20, "C04": 20, "C05": 36, "C06": 24, "C07": 16, "C08": 50, "C12": 30, "C13": 24, "C14": 36, "C15": 20, "C16": 24, "C18": 20}

BY_PROP = {"C09": moves, "C07": collections, "C03": collections, "C01": wide, "C10": wide, "C11": wide, "C16": moves, "C04": collections}
PART = {"C04": 0.35, "C16": 0.35, "C03": 0.6}
def longs(prop, rng, k):
    more = bigs(rng, 1, FORCED.get(prop, ()), BIGS[prop]) if prop in BIGS else []
    f = BY_PROP.get(prop)
    if f is None: return more
    out = f(rng, k)
    if prop == "C10": out = [p for p in out if p["defs"]["S"]["kind"] == "enum"]
    if prop == "C11": out = [p for p in out if p["defs"]["S"]["kind"] == "fieldless"]
    if prop == "C01": out = [p for p in out if p["defs"]["S"]["kind"] != "fieldless"]
    if prop == "C07":     # more items than 15 and than 16 bits count
        for n, t in ((32767, U16), (33000, U16), (65535, U16), (65536, U32), (70000, U32)):
            for a in ([LCount(num(t["k"]))], [Count(var("n"))]):
                fs = [F("v", vec(U8), *a), F("z", U8)]
                out.append(P(([F("n", t)] if a[0]["a"] == "Count" else []) + fs, [be(n, W[t["k"]]) + pat(n + d) for d in ((0, 1) if n == 33000 else (rng.choice([-1, 2]),))]))
    n = PART.get(prop)
    if n:
        rng.shuffle(out); out = out[:int(len(out) * n)]
    return out + more
