"""Random well-formed programs: every attribute, in random combination."""
import json
from gen import *

SMALLU = ("u8", "u16")
def is_int(t): return t["k"] in INTS
EXPR_INT = ("u8", "u16", "u32", "i8", "i16", "i32", "u64", "i64")

class RG:
    def __init__(s, rng, **o):
        s.r = rng
        s.o = dict(enums=True, nested=True, debug=True, complete=True, endian=True, moves=True, exec_=True, generr=None, wrap=0.65, maxf=5,
                   terminals=True, streaming=False, features=None)
        s.o.update(o)
        s.id = 0
        s.defs = {}
        s.tops = []
    def nid(s): s.id += 1; return s.id
    def ch(s, p): return s.r.random() < p
    def pick(s, l): return s.r.choice(l)

    # -------- expressions over the names in scope (name -> type)
    def small_vars(s, sc): return [n for n, t in sc.items() if t["k"] in SMALLU]
    def int_vars(s, sc): return [n for n, t in sc.items() if t["k"] in EXPR_INT]
    def usize_expr(s, sc, lo=0):
        """a count/offset: anything castable to usize"""
        r = s.r.random(); sv = s.small_vars(sc); iv = s.int_vars(sc)
        if lo > 0:
            if sv and r < 0.4: return add(us(mod(var(s.pick(sv)), s.pick([3, 4, 5]))), lit(lo))
            return lit(s.pick([lo, 2, 3, 4, 5, 8]))
        if sv and r < 0.35: return var(s.pick(sv))
        if iv and r < 0.45: return var(s.pick(iv))
        if sv and r < 0.52: return mod(var(s.pick(sv)), s.pick([2, 3, 4]))
        if sv and r < 0.60: return add(us(var(s.pick(sv))), us(var(s.pick(sv))))
        if sv and r < 0.66: return add(us(var(s.pick(sv))), lit(s.pick([0, 1, 2])))
        if sv and r < 0.70: return mul(us(var(s.pick(sv))), lit(2))
        vl = [n for n, t in sc.items() if t["k"] in ("vec", "slice", "str") and n not in s.noinf]
        if vl and r < 0.80: return vlen(s.pick(vl))
        if r < 0.84: return ite(s.bool_expr(sc), lit(1), lit(2))
        return lit(s.pick([0, 1, 1, 2, 2, 3]))
    def isize_expr(s, sc):
        iv = s.int_vars(sc); r = s.r.random()
        if iv and r < 0.35: return isz(var(s.pick(iv)))
        if s.small_vars(sc) and r < 0.5: return sub(isz(var(s.pick(s.small_vars(sc)))), lit(s.pick([1, 2, 3])))
        return s.pick([lit(0), lit(1), lit(2), neg(lit(1)), neg(lit(2)), neg(lit(3))])
    def bool_expr(s, sc, d=0):
        iv = s.int_vars(sc); r = s.r.random()
        if d < 2 and r < 0.12: return band(s.bool_expr(sc, d + 1), s.bool_expr(sc, d + 1))
        if d < 2 and r < 0.22: return bor(s.bool_expr(sc, d + 1), s.bool_expr(sc, d + 1))
        if d < 2 and r < 0.29: return bnot(s.bool_expr(sc, d + 1))
        bv = [n for n, t in sc.items() if t["k"] == "bool"]; ov = [n for n, t in sc.items() if t["k"] == "opt"]
        if bv and r < 0.36: return bvar(s.pick(bv))
        if ov and r < 0.45: return is_some(s.pick(ov))
        if iv and r < 0.9: return cmp_(s.pick(["eq", "ne", "lt", "gt", "le", "ge"]), var(s.pick(iv)), lit(s.pick([0, 1, 2, 3, 4, 100])))
        if r < 0.95: return gt(ILEN, lit(s.pick([0, 1, 2, 4])))
        return tf(s.ch(0.7))

    # -------- types
    def prim(s): return T(s.pick(NUMS if s.ch(0.6) else ["u8", "u16", "u32", "u8"]))
    def elem(s, d=0):
        """type usable as generic argument"""
        r = s.r.random()
        if d < 2:
            if r < 0.10: return opt(s.elem(d + 1))
            if r < 0.20: return tup(s.elem(d + 1), s.elem(d + 1))
            if r < 0.26: return arr(s.elem(d + 1), s.pick([1, 2, 3]))
            if r < 0.35: return s.str_()
            if r < 0.40: return s.pick([CUSL, CUSB, TRI, TRI])
            if r < 0.55 and s.o["nested"]: return s.sub_type(d)
        return s.prim()
    def base(s, d=0, generr=False):
        """type with an inferred parser at field level"""
        r = s.r.random()
        if r < 0.12: return opt(s.elem(d + 1))
        if r < 0.17 and not s.o["streaming"]: return vec(s.elem(d + 1))
        if r < 0.24: return arr(s.elem1(d + 1), s.pick([1, 2, 3]))
        if r < 0.30: return s.str_()
        if r < 0.35: return s.pick([CUSL, CUSB, TRI, TRI])
        if r < 0.50 and s.o["nested"]: return s.sub_type(d)
        return s.prim()
    def sub_type(s, d):
        """a definition without arguments"""
        ok = [n for n in s.tops if not args_of(s.defs[n])]
        if ok and s.ch(0.6): return D(s.pick(ok))
        if len(s.defs) >= 4 or d > 1: return s.prim()
        n = "T%d" % len(s.defs)
        s.defs[n] = None
        s.insub += 1
        s.defs[n] = s.fieldless() if s.ch(0.3) else s.struct_def(maxf=2, noargs=True, sub=True)
        s.insub -= 1
        s.tops.append(n)
        return D(n)

    # -------- one field: (type, attributes giving its parser)
    def user_parser(s, t, sc, d=0):
        """a user parser yielding t"""
        if t["k"] in NUMS and s.ch(0.75): f = num(t["k"], s.pick(["be", "le"]))
        else: f = pty(t, s.pick(["be", "le"]), s.pick([None, "parse"]))
        if f.get("re") == "parse": f["e"] = "be"
        if s.ch(0.12): f = psub(lit(s.pick([2, 4, 8])), f)
        if s.ch(0.15): f = plog(s.nid(), f)
        return f
    def terminal(s, sc):
        r = s.r.random()
        if r < 0.22: return SLICE, [Take(s.usize_expr(sc))]
        if r < 0.34: return SLICE, [Tag(s.pick([[1], [1, 2], [0], [2, 1, 0], list(b"ab")]))]
        if r < 0.42: return SLICE, [Parse(pldata(s.pick(["u8", "u16"]), s.pick(["be", "le"])))]
        if r < 0.47: return s.prim(), [Parse(perr(s.ch(0.4)))] if s.ch(0.5) else [IGN]
        if r < 0.53: return s.pick([s.prim(), opt(U8), vec(U16), s.str_()]), [IGN]
        if r < 0.60:
            v = s.small_vars(sc)
            if v and s.ch(0.6): n = s.pick(v); return dict(sc[n]), [Value(var(n))]
            return s.pick([U8, U16, U32]), [Value(lit(s.pick([0, 5, 77])))]
        if r < 0.64: return PHANTOM, []
        if r < 0.68 and not s.o["streaming"]: return SLICE, [Parse(REST)]
        if r < 0.74:
            en = [n for n, x in s.defs.items() if x and args_of(x)]
            if en:
                n = s.pick(en); a = s.call_args(s.defs[n], sc)
                if a is not None:
                    e = s.pick(["be", "le"]); f = callx(n, a, e)
                    return D(n), [Parse(plog(s.nid(), f) if s.ch(0.3) else f)]
        s.insub += 1; t = s.prim() if s.ch(0.6) else s.elem(); s.insub -= 1
        if s.ch(0.12): t = ld(s.pick(["u8", "u16", "u32"]))
        return t, [Parse(s.user_parser(t, sc))]
    def call_args(s, d, sc):
        out = []
        for t in args_of(d):
            c = [n for n, x in sc.items() if x == t]
            if t["k"] in ("u8", "u16", "u32", "i8", "i32"):
                out.append(var(s.pick(c)) if c and s.ch(0.8) else lit(s.pick([0, 1, 2, 3])))
            elif t["k"] == "bool": out.append(bvar(s.pick(c)) if c and s.ch(0.7) else tf(s.ch(0.5)))
            elif t["k"] == "endian": out.append(s.pick([BE, LE]))
            else: return None
        for k, t in enumerate(args_of(d)):
            if t["k"] == "bool" and out[k]["op"] == "bvar": pass
        return out
    def chain(s, sc, nm, d=0, generr=False, top=True):
        r = s.r.random()
        w = s.o["wrap"] if d == 0 else 0.4
        if d >= 3 or r > w:
            if s.o["terminals"] and s.ch(0.4): return s.terminal(sc)
            return (s.base(d, generr), []) if top else (s.elem1(d), [])
        r = s.r.random()
        if r < 0.20:
            t, a = s.chain(sc, nm, d + 1, generr, False)
            return opt(t), [Cond(s.bool_expr(sc), **s.al("If"))] + a
        if r < 0.38:
            t, a = s.chain(sc, nm, d + 1, generr, False)
            if not s.sized(t, a): t, a = U16, []
            return vec(t), [Count(s.usize_expr(sc))] + a
        if r < 0.48:
            t, a = s.chain(sc, nm, d + 1, generr, False)
            if not s.sized(t, a): t, a = U8, []
            return vec(t), [LCount(num(s.pick(["u8", "u8", "u16"]), s.pick(["be", "le"])))] + a
        if r < 0.62:
            t, a = s.chain(sc, nm, d + 1, generr, top)
            if nm[0] == "_": return t, a        # not available on unnamed fields
            c = s.self_cond(t)
            if any(x["a"] in ("Into", "Map") for x in a): return t, a
            if c is None: return t, a
            if s.ch(0.3): c = lg(s.nid(), c)
            return t, [Verify(c)] + a
        if r < 0.72 and s.o["complete"]:
            t, a = s.chain(sc, nm, d + 1, generr, top); return t, [COMPLETE] + a
        if r < 0.82 and s.o["debug"] and not generr and nm[0] != "_":
            t, a = s.chain(sc, nm, d + 1, generr, top); return t, [DEBUG] + a
        if r < 0.92:
            m, t, a = s.mapped(sc)
            mid = []
            if s.o["complete"] and s.ch(0.2): mid.append(COMPLETE)
            if s.o["debug"] and not generr and nm[0] != "_" and s.ch(0.15): mid.append(DEBUG)
            return t, [Map(m)] + mid + a
        t, c, a = s.pick([(U32, cv("wide", n=3), [Parse(num("u8"))]), (U16, cv("wide", n=1), [Parse(num("u8"))]), (U64, cv("wide", n=4), [Parse(num("u32", s.pick(["be", "le"])))]),
                          (vec(U8), cv("tovec"), [Take(s.usize_expr(sc))]), (U16, cv("id"), []), (T("w8"), cv("id"), [Parse(num("u8"))])])
        mid = [COMPLETE] if s.o["complete"] and s.ch(0.2) else []
        return t, [Into(c)] + mid + a
    def str_(s): return U16 if s.sub_generr and s.insub else STR
    insub = 0
    noinf = ()
    def elem1(s, d):
        t = s.elem(d)
        return s.prim() if t["k"] in ("tup",) else t
    def al(s, name): return {"al": name} if s.ch(0.25) else {}
    def sized(s, t, a):
        """consumes at least one byte whenever it succeeds (keeps huge counts finite)"""
        if any(x["a"] in ("Cond", "Count", "LengthCount", "Value", "Ignore", "Take", "Map", "Into") for x in a): return False
        if any(x["a"] == "Parse" for x in a):
            f = [x for x in a if x["a"] == "Parse"][0]["f"]
            while f["p"] in ("lg", "sub"): f = f["f"]
            return f["p"] == "num"
        return t["k"] in NUMS or t["k"] in ("cus", "ld", "str") or (t["k"] == "tup" and s.sized(t["a"], [])) or (t["k"] == "arr" and s.sized(t["t"], [])) \
            or (t["k"] == "slice" and any(x["a"] == "Tag" for x in a)) or (t["k"] == "def" and s.defs.get(t["d"]) and s.defs[t["d"]]["kind"] == "fieldless")
    def self_cond(s, t):
        k = t["k"]
        if k in EXPR_INT: return cmp_(s.pick(["ne", "lt", "gt", "le"]), SELF, lit(s.pick([0, 1, 2, 3, 100])))
        if k in ("vec", "slice", "str"): return cmp_(s.pick(["ne", "lt", "ge"]), SLEN, lit(s.pick([0, 1, 2])))
        return None
    def mapped(s, sc):
        e = s.pick(["be", "le"]); i = {"id": s.nid()} if s.ch(0.3) else {}
        return s.pick([(cv("inc8", **i), U8, []), (cv("inc8", **i), U8, [Parse(num("u8"))]), (cv("dbl8", **i), U16, [Parse(num("u8"))]),
                       (cv("hi16", **i), U8, [Parse(num("u16", e))]), (cv("tovec", **i), vec(U8), [Take(s.usize_expr(sc))]),
                       (cv("tovec", **i), vec(U8), [Parse(pldata("u8"))]), (cv("len", **i), USIZE, [Take(s.usize_expr(sc))]),
                       (cv("len", **i), USIZE, [Tag([1, 2])]),
                       (cv("optor", d=[7], **i), U8, [Parse(pcond(s.bool_expr(sc), num("u8")))])])

    # -------- directives around the value
    def stmts(s, sc, attrs_, pos, mine):
        """one statement; pos = "pre"/"post"; mine = names visible"""
        r = s.r.random()
        if r < 0.35: return mk(s.nid())
        if r < 0.6 and mine: return mv(s.nid(), s.pick(mine))
        if r < 0.75:
            n = "k%d" % s.nid(); t = s.pick([U8, USIZE, U16])
            e = s.usize_expr({k: v for k, v in sc.items() if v["k"] in SMALLU}) if s.ch(0.7) else lit(2)
            sc[n] = t; return let(n, t, e)
        if r < 0.88:
            n = "k%d" % s.nid(); t = s.pick([U8, U16]); sc[n] = t
            return rd(n, t, s.pick(["be", "le"]))
        return adv(s.pick([1, 2]))
    def around(s, sc, nm, ftype):
        """(pre attributes before the value is known, post attributes)"""
        pre, post = [], []
        n = s.pick([0, 0, 0, 1, 1, 2])
        for _ in range(n):
            r = s.r.random()
            if r < 0.16: pre.append(Pos("AlignBefore", s.usize_expr(sc, 1)))
            elif r < 0.32: pre.append(Pos("SkipBefore", s.usize_expr(sc)))
            elif r < 0.44 and s.o["moves"]: pre.append(Pos("Move", s.isize_expr(sc)))
            elif r < 0.54 and s.o["moves"]: pre.append(Pos("MoveAbs", s.usize_expr(sc)))
            elif r < 0.70: pre.append(ErrorIf(lg(s.nid(), s.bool_expr(sc)) if s.ch(0.3) else s.bool_expr(sc)))
            elif s.o["exec_"]: pre.append(Pre(s.stmts(sc, pre, "pre", [x for x, t in sc.items() if t["k"] != "endian"])))
        n = s.pick([0, 0, 0, 1, 1, 2])
        sc[nm] = ftype
        for _ in range(n):
            r = s.r.random()
            if r < 0.3: post.append(Pos("AlignAfter", s.usize_expr(sc, 1)))
            elif r < 0.6: post.append(Pos("SkipAfter", s.usize_expr(sc)))
            elif s.o["exec_"]: post.append(Post(s.stmts(sc, post, "post", [x for x, t in sc.items() if t["k"] != "endian"])))
        return pre, post
    def interleave(s, *ls):
        """merge keeping the order inside each list"""
        ls = [list(l) for l in ls if l]; out = []
        while ls:
            l = s.pick(ls); out.append(l.pop(0))
            if not l: ls.remove(l)
        return out
    def fields(s, sc, maxf, shape, generr):
        save, s.noinf = s.noinf, ()
        try: return s.fields_(sc, maxf, shape, generr)
        finally: s.noinf = save
    def fields_(s, sc, maxf, shape, generr):
        fs = []
        for j in range(s.r.randrange(1, maxf + 1)):
            nm = "_%d" % j if shape == "unnamed" else s.pick(["f%d", "x%d", "len%d"]) % j
            if j == 0 and s.ch(0.5): t, a = s.pick([(U8, []), (U16, [])])
            else: t, a = s.chain(dict(sc), nm, 0, generr)
            sc0 = dict(sc)
            s.noinf = set(s.noinf) - {nm} | ({nm} if any(x['a'] == 'Into' for x in a) else set())
            pre, post = s.around(sc, nm, t)
            en = []
            if s.o["endian"] and s.ch(0.25):
                r = s.r.random()
                if r < 0.4: en = [BIG]
                elif r < 0.8 or s.sub_generr: en = [LITTLE]
                else:
                    m = SetE(s.endexpr(sc0))
                    if s.ch(0.5): m["id"] = s.nid()
                    # evaluated between the other pre directives: keep it first
                    pre = [m] + pre
            # a directive defining a name must not come before one that uses another scope: order kept
            al = s.interleave(pre, post, en, a)
            for x in al:
                if s.ch(0.2) and x["a"] in ("Parse", "Count", "Cond", "Verify", "Map", "Take", "Tag", "Value", "LengthCount", "ErrorIf", "SkipBefore", "SkipAfter", "AlignBefore",
                                            "AlignAfter", "Move", "MoveAbs", "PreExec", "PostExec", "SetEndian"): x["st"] = "s"
            k = {"g": "split"} if s.ch(0.2) else {}
            fs.append(F(nm, t, *al, **k))
        return fs
    def endexpr(s, sc):
        ev = [n for n, t in sc.items() if t["k"] == "endian"]
        if ev and s.ch(0.6): return evar(s.pick(ev))
        if s.ch(0.5): return eite(s.bool_expr(sc))
        return s.pick([BE, LE])
    def top_attrs(s, sc, sub, sel=None):
        """(attributes, derive, generic errors?) ; sc receives the arguments"""
        a = []
        drv = s.pick(["Nom", "Nom", "Nom", "NomBE", "NomLE"])
        generr = s.ch(0.18) if s.o["generr"] is None else s.o["generr"]
        if sub: generr = s.sub_generr
        if generr: a.append(GENERR)
        if sel is not None: a.append(Sel(sel))
        if s.o["endian"] and drv == "Nom" and s.ch(0.3): a.append(s.pick([BIG, LITTLE]))
        if s.o["complete"] and s.ch(0.08): a.append(COMPLETE)
        if s.o["debug"] and not generr and s.ch(0.06): a.append(DEBUG)
        if s.ch(0.2): a.append(InName(s.pick(["input", "data", "orig_input", "bytes"])))
        return a, drv, generr
    sub_generr = False
    def struct_def(s, maxf=None, noargs=False, sub=False):
        sc = {}
        a, drv, generr = s.top_attrs(sc, sub)
        if not sub: s.sub_generr = generr
        if not noargs and s.ch(0.25):
            ps = [(s.pick(["arg%d", "p%d"]) % k, s.pick([U8, U16, BOOL, ENDIAN])) for k in range(s.pick([1, 2]))]
            a.append(Extra(*ps))
            for n, t in ps: sc[n] = t
        if s.o["endian"] and drv == "Nom" and not generr and not any(x["a"] in ("BigEndian", "LittleEndian") for x in a) and s.ch(0.1):
            x = SetE(s.endexpr(sc))
            if s.ch(0.4): x["id"] = s.nid()
            a.append(x)
        if s.o["exec_"] and s.ch(0.2):
            a.append(Pre(s.stmts(sc, a, "pre", [x for x, t in sc.items() if t["k"] != "endian"])))
        shape = "named" if any(x["a"] == "Debug" for x in a) else s.pick(["named", "named", "unnamed"])
        fs = s.fields(sc, maxf or s.o["maxf"], shape, generr)
        if s.o["exec_"] and s.ch(0.2): a.append(Post(s.pick([mk(s.nid()), built(s.nid())])))
        if s.ch(0.08) and not s.o["streaming"]: a.append(EXACT)
        k = {"g": "split"} if s.ch(0.2) else {}
        return struct(fs, *a, drv=drv, shape=shape, **k)
    def fieldless(s):
        w = s.pick(["u8", "u8", "u16", "u32", "i8", "i16", "u64", "i32"])
        vals, cur = [], None
        for _ in range(s.r.randrange(1, 5)):
            if s.ch(0.5): vals.append(None); cur = 0 if cur is None else cur + 1
            else:
                cur = (cur if cur is not None else -1) + s.pick([1, 2, 5, 20])
                vals.append(cur)
        if w[0] == "i" and s.ch(0.5): vals[0] = s.pick([-1, -2, -100])
        # keep them distinct and in range
        cur, seen = None, set()
        for j, v in enumerate(vals):
            cur = v if v is not None else (0 if cur is None else cur + 1)
            if cur in seen or cur > 127: return s.fieldless()
            seen.add(cur)
        a = []
        drv = s.pick(["Nom", "Nom", "NomBE", "NomLE"])
        if s.sub_generr: a.append(GENERR)
        if drv == "Nom" and s.ch(0.3): a.append(s.pick([BIG, LITTLE]))
        if s.o["complete"] and s.ch(0.2): a.append(COMPLETE)
        return fieldless(w, vals, *a, drv=drv)
    def enum_def(s, sub=False):
        t = s.pick([U8, U8, U16, U32, I8])
        sc = {"selector": t}
        a, drv, generr = s.top_attrs(sc, sub, sel=t)
        if not sub: s.sub_generr = generr
        inname = [x["n"] for x in a if x["a"] == "InputName"]
        if s.ch(0.2):
            a.append(Extra(("arg0", s.pick([U8, U16, BOOL])))); sc["arg0"] = a[-1]["ps"][0]["t"]
        if s.o["exec_"] and s.ch(0.15): a.append(Pre(mk(s.nid())))
        vs = []
        nv = s.r.randrange(1, 5)
        dflt = s.r.randrange(nv) if s.ch(0.45) else -1
        for j in range(nv):
            if j == dflt: p, g = WILD, None
            else:
                r = s.r.random()
                lo = 0 if t["k"][0] == "u" else -2
                p = plit(s.pick([lo, 1, 2, 3, 4])) if r < 0.5 else prange(*sorted([s.pick([lo, 1, 2]), s.pick([2, 3, 5])])) if r < 0.65 else \
                    por(plit(s.pick([0, 1])), plit(s.pick([2, 3])), prange(7, 9)) if r < 0.8 else pfrom(s.pick([3, 5])) if r < 0.85 else \
                    pat_at("y", por(plit(1), prange(3, 4))) if r < 0.92 else WILD if r < 0.96 else pbind("y")
                g = None
                if p["p"] in ("wild", "bind") or s.ch(0.3):
                    sc2 = dict(sc)
                    if p["p"] in ("at", "bind"): sc2["y"] = t
                    g = s.bool_expr(sc2)
            sc2 = dict(sc)
            if p["p"] in ("at", "bind"): sc2["y"] = t
            shape = s.pick(["unit", "named"] if any(x["a"] == "Debug" for x in a) else ["unit", "unnamed", "unnamed", "named"])
            st = "s" if s.ch(0.25) else None
            if shape == "unit":
                x = []
                if s.ch(0.4): x.append(Parse(s.user_parser(s.pick([U8, U16]), sc2)))
                if s.ch(0.2) and s.o["exec_"]: x.append(Pre(mk(s.nid())))
                vs.append(variant("V%d" % j, p, [], *x, guard=g, st=st))
            else:
                fs = s.fields(sc2, 2, shape, generr)
                vs.append(variant("V%d" % j, p, fs, shape=shape, guard=g, st=st))
        if s.o["exec_"] and s.ch(0.15): a.append(Post(s.pick([mk(s.nid()), built(s.nid())])))
        if s.ch(0.06) and not s.o["streaming"]: a.append(EXACT)
        k = {"g": "split"} if s.ch(0.2) else {}
        e = {"kind": "enum", "drv": drv, "attrs": a, "variants": vs, "shape": "enum", "fields": []}
        e.update(k)
        return e
    def program(s):
        r = s.r.random()
        s.sub_generr = False
        if s.o["generr"] is None: s.o["generr"] = s.ch(0.15)
        s.sub_generr = s.o["generr"]
        if s.o["enums"] and r < 0.35:
            s.defs["E"] = None
            s.defs["E"] = s.enum_def(sub=True); s.tops.append("E")
            if s.ch(0.5): main = "E"
            else:
                s.defs["S"] = None; s.defs["S"] = s.struct_def(); main = "S"
        elif r < 0.42:
            s.defs["E"] = s.fieldless(); main = "E"
        else:
            s.defs["S"] = None; s.defs["S"] = s.struct_def(); main = "S"
        return prog({k: v for k, v in s.defs.items() if v}, main)

def random_programs(rng, n, keep=None, **o):
    out = []
    tries = 0
    while len(out) < n and tries < n * 40:
        tries += 1
        p = RG(rng, **o).program()
        if any(has(d, "GenericErrors") for d in p["defs"].values()) and any('"k": "str"' in json.dumps(d) for n_, d in p["defs"].items() if n_ != p["main"]):
            continue        # the outer type cannot know what the inner one requires of the error type
        if keep and not keep(p): continue
        out.append(p)
    return out
