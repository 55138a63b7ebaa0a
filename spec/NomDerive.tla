------------------------------ MODULE NomDerive ------------------------------
(***************************************************************************)
(* The generated parsers at run time, as an abstract machine.              *)
(*                                                                         *)
(* One action per step of the generated code and of the combinators it     *)
(* calls.  Machine state m:                                                *)
(*   mode "eval" : run parser expression m.x on the input window           *)
(*                 [m.pos, m.lim)                                          *)
(*        "ret"  : hand result m.res to the frame on top of m.stk          *)
(*        "obj"  : the frame on top is a derived function with operations  *)
(*                 left to execute                                         *)
(*        "done" : m.res is the result of the whole parse                  *)
(*   stk  : frames, top first                                              *)
(*   log  : side effects of user statements, in order                      *)
(*   dbg  : diagnostics printed by Debug, in order                         *)
(*                                                                         *)
(* Results: [r, pos, v, n, ch] with r in ok / inc / err / fail; pos = next *)
(* unread byte (ok), n = bytes asked for (inc, 0 = unknown), ch = error    *)
(* chain, innermost first: <<<<code, position>>, ...>>.                    *)
(***************************************************************************)
EXTENDS FrontEnd

CONSTANTS Input(_),        \* Input(m): the caller's buffer, for machine m
          DefOf(_, _)     \* DefOf(m, name): the definition called name

(* the byte at offset p (from 0), and windows *)
Win(inp, p, q) == SubSeq(inp, p + 1, q)

OkR(p, v)  == [r |-> "ok",   pos |-> p, v |-> v,    n |-> 0, ch |-> <<>>]
(* requests close to or beyond HUGE are all recorded as HUGE *)
IncR(n)    == [r |-> "inc",  pos |-> 0, v |-> <<>>, n |-> IF n >= HUGE - 262144 THEN HUGE ELSE n, ch |-> <<>>]
ErrR(k, p) == [r |-> "err",  pos |-> 0, v |-> <<>>, n |-> 0, ch |-> <<<<k, p>>>>]
FailR(k,p) == [r |-> "fail", pos |-> 0, v |-> <<>>, n |-> 0, ch |-> <<<<k, p>>>>]
Append1(res, k, p) == [res EXCEPT !.ch = Append(@, <<k, p>>)]

(* moves of the machine *)
Ret(m, res)        == [m EXCEPT !.mode = "ret", !.res = res]
Eval(m, x, p, lim) == [m EXCEPT !.mode = "eval", !.x = x, !.pos = p, !.lim = lim]
Push(m, f)         == [m EXCEPT !.stk = <<f>> \o @]
Top(m)             == Head(m.stk)
Pop(m)             == [m EXCEPT !.stk = Tail(@)]
SetTop(m, f)       == [m EXCEPT !.stk = <<f>> \o Tail(@)]
Log(m, ev)         == [m EXCEPT !.log = Append(@, ev)]

(* the innermost running derived function: its environment *)
ObjOf(m) == m.stk[CHOOSE i \in 1..Len(m.stk) : m.stk[i].f = "obj"
                     /\ \A j \in 1..(i-1) : m.stk[j].f # "obj"]
HasObj(m) == \E i \in 1..Len(m.stk) : m.stk[i].f = "obj"
EnvOf(m) == IF HasObj(m) THEN ObjOf(m).env ELSE <<>>
(* expressions in combinator arguments see the input variable of the object *)
Ctx(m) == LET o == ObjOf(m) IN [env |-> o.env, pos |-> o.pos, lim |-> o.lim,
                                self |-> [t |-> [k |-> "u8"], v |-> <<0>>]]
(* inside closures of Parse attributes the input is the closure's own *)
CtxAt(m, p, lim) == [Ctx(m) EXCEPT !.pos = p, !.lim = lim]

Avail(m) == m.lim - m.pos
Slice(inp, p, n) == <<p, n>> \o Win(inp, p, p + n)

-----------------------------------------------------------------------------
(* Parsers of types: src/traits.rs, src/helpers.rs                         *)

Num(m, k, e) ==
  LET w == Width(k) IN
  IF Avail(m) < w THEN IncR(w - Avail(m))
  ELSE LET b == Win(Input(m), m.pos, m.pos + w)
       IN OkR(m.pos + w, IF e = "le" THEN Reverse(b) ELSE b)
TakeR(m, n) ==   \* streaming take
  IF n > Avail(m) THEN IncR(IF n >= HUGE THEN HUGE ELSE n - Avail(m))
  ELSE OkR(m.pos + n, Slice(Input(m), m.pos, n))

Ty(t, e) == [x |-> "ty", t |-> t, e |-> e]
Compl1(x) == [x |-> "complete", s |-> x]

IsTy(m, k) == m.mode = "eval" /\ m.x.x = "ty" /\ m.x.t.k = k

G_Prim(m) == m.mode = "eval" /\ m.x.x = "ty" /\ m.x.t.k \in PrimKinds
T_Prim(m) == Ret(m, Num(m, m.x.t.k, m.x.e))

G_Opt(m) == IsTy(m, "opt")
T_Opt(m) == Eval(Push(m, [f |-> "opt", p |-> m.pos]), Compl1(Ty(m.x.t.t, m.x.e)), m.pos, m.lim)

G_Vec(m) == IsTy(m, "vec")
T_Vec(m) == LET y == Compl1(Ty(m.x.t.t, m.x.e))
            IN Eval(Push(m, [f |-> "many0", s |-> y, p |-> m.pos, lim |-> m.lim, c |-> 0, acc |-> <<>>]),
                    y, m.pos, m.lim)

(* with alloc: count(complete(T), N); without: fill(T) *)
G_Arr(m) == IsTy(m, "arr")
T_Arr(m) ==
  LET y == IF m.cfg = "core" THEN Ty(m.x.t.t, m.x.e) ELSE Compl1(Ty(m.x.t.t, m.x.e)) IN
  IF m.x.t.n = 0 THEN Ret(m, OkR(m.pos, <<>>))
  ELSE Eval(Push(m, [f |-> "arr", s |-> y, p0 |-> m.pos, p |-> m.pos, lim |-> m.lim, c |-> 0, n |-> m.x.t.n, acc |-> <<>>]),
            y, m.pos, m.lim)

G_Pair(m) == IsTy(m, "tup")
T_Pair(m) == Eval(Push(m, [f |-> "pair1", s |-> Ty(m.x.t.b, m.x.e), lim |-> m.lim]),
                  Ty(m.x.t.a, m.x.e), m.pos, m.lim)

(* String: u32 big-endian length whatever the entry point, then UTF-8 *)
G_Str(m) == IsTy(m, "str")
T_Str(m) == Eval(Push(m, [f |-> "str1", lim |-> m.lim]), Ty([k |-> "u32"], "be"), m.pos, m.lim)

G_LenData(m) == IsTy(m, "ld")
(* "tl": a length type of the user, one byte when asked by its default entry point, else two *)
T_LenData(m) ==
  LET k == IF m.x.t.l # "tl" THEN m.x.t.l ELSE IF m.x.e = "un" THEN "u8" ELSE "u16"
  IN Eval(Push(m, [f |-> "len1", k |-> k, lim |-> m.lim, eof |-> FALSE]), Ty([k |-> k], m.x.e), m.pos, m.lim)

(* hand-written types.  Providing `parse` only: reads w in a fixed order.  Providing three different     *)
(* entry points (e = "tri"): the value tells which one was called (0 parse, 1 parse_be, 2 parse_le).      *)
(* Order "un": the default entry point, asked from a library type; library types hand it on to their      *)
(* items, for all others it is the big-endian one.                                                        *)
G_Custom(m) == IsTy(m, "cus")
T_Custom(m) ==
  IF m.x.t.e # "tri" THEN Ret(m, Num(m, m.x.t.w, m.x.t.e))
  ELSE LET r == Num(m, m.x.t.w, m.x.e)
       IN Ret(m, IF r.r = "ok" THEN [r EXCEPT !.v = <<CASE m.x.e = "un" -> 0 [] m.x.e = "be" -> 1 [] OTHER -> 2>> \o @] ELSE r)

NewObj(m, d, entry, args, p, lim) ==
  LET as == Args(d)
      env0 == [n \in {as[i].n : i \in 1..Len(as)} |->
                 LET i == CHOOSE i \in 1..Len(as) : as[i].n = n IN [t |-> as[i].t, v |-> args[i]]]
  IN [Push(m, [f |-> "obj", d |-> d, e |-> entry, st |-> p, pos |-> p, lim |-> lim, olim |-> lim, wnd |-> <<>>, env |-> env0, senv |-> env0,
               endv |-> "be", val |-> <<>>, ops |-> Program(d, entry)]) EXCEPT !.mode = "obj"]

G_Call(m) == IsTy(m, "def")
T_Call(m) == NewObj(m, DefOf(m, m.x.t.d), IF m.x.e = "un" THEN "be" ELSE m.x.e, <<>>, m.pos, m.lim)

(* run-time byte order *)
G_SetTy(m) == m.mode = "eval" /\ m.x.x = "tyset"
T_SetTy(m) == Eval(m, Ty(m.x.t, ObjOf(m).endv), m.pos, m.lim)

-----------------------------------------------------------------------------
(* Combinators: parsertree.rs                                              *)
Is(m, x) == m.mode = "eval" /\ m.x.x = x

G_Complete(m) == Is(m, "complete")
T_Complete(m) == Eval(Push(m, [f |-> "complete", p |-> m.pos]), m.x.s, m.pos, m.lim)

G_Cond(m) == Is(m, "cond")
T_Cond(m) == IF EvalB(m.x.n, Ctx(m)) THEN Eval(Push(m, [f |-> "some"]), m.x.s, m.pos, m.lim)
             ELSE Ret(m, OkR(m.pos, <<0>>))

CountFrame(x, p0, p, lim, n) ==
  [f |-> "count", s |-> x, p0 |-> p0, p |-> p, lim |-> lim, c |-> 0, n |-> n, acc |-> <<>>]
StartCount(m, x, p0, p, lim, n) ==
  IF n = 0 THEN Ret(m, OkR(p, <<0>>))
  ELSE IF n > 1000 /\ x.x = "ty" /\ x.t.k = "u8"      \* the same, in one step: thousands of bytes
       THEN Ret(m, IF n > lim - p THEN IncR(1) ELSE OkR(p + n, <<n>> \o Win(Input(m), p, p + n)))
  ELSE Eval(Push(m, CountFrame(x, p0, p, lim, n)), x, p, lim)

G_Count(m) == Is(m, "count")
T_Count(m) == StartCount(m, m.x.s, m.pos, m.pos, m.lim, UsizeOf(m.x.n, Ctx(m)))

G_LCount(m) == Is(m, "lcount")
T_LCount(m) == Eval(Push(m, [f |-> "lcount1", s |-> m.x.s, f1 |-> m.x.f, lim |-> m.lim]),
                    [x |-> "pf", f |-> m.x.f], m.pos, m.lim)

G_Dbg(m) == Is(m, "dbg")
T_Dbg(m) == Eval(Push(m, [f |-> "dbg", nm |-> m.x.nm]), m.x.s, m.pos, m.lim)

G_Into(m) == Is(m, "into")
T_Into(m) == Eval(Push(m, [f |-> "into", m |-> m.x.m]), m.x.s, m.pos, m.lim)

G_Map(m) == Is(m, "map")
T_Map(m) == Eval(Push(m, [f |-> "map", m |-> m.x.m]), m.x.s, m.pos, m.lim)

G_Verify(m) == Is(m, "verify")
T_Verify(m) == Eval(Push(m, [f |-> "verify", n |-> m.x.n, t |-> m.x.t, p |-> m.pos]), m.x.s, m.pos, m.lim)

G_Const(m) == Is(m, "const")
T_Const(m) == Ret(m, OkR(m.pos, m.x.v))

RECURSIVE DefaultOf(_, _)
DefaultOf(m, t) ==
  CASE t.k \in ScalarKinds -> Zeros(Width(t.k))
    [] t.k \in {"opt", "vec", "str"} -> <<0>>
    [] t.k = "arr" -> FlattenSeq([i \in 1..t.n |-> DefaultOf(m, t.t)])
    [] t.k = "tup" -> DefaultOf(m, t.a) \o DefaultOf(m, t.b)
    [] t.k = "phantom" -> <<>>
    [] t.k = "slice" -> <<0, 0>>
    [] t.k = "cus" -> Zeros(Width(t.w) + IF t.e = "tri" THEN 1 ELSE 0)
    [] t.k = "dfl" -> <<1, 7>>                     \* its Default is not all zeros
    [] t.k = "def" -> LET d == DefOf(m, t.d)
                      IN FlattenSeq([i \in 1..Len(d.fields) |-> DefaultOf(m, d.fields[i].t)])
G_Default(m) == Is(m, "default")
T_Default(m) == Ret(m, OkR(m.pos, DefaultOf(m, m.x.t)))

(* Value(expr): a copy of something in scope, or a number/bool *)
ValueOf(m, e, t, c) ==
  IF e.op = "var" THEN c.env[e.x].v
  ELSE IF t.k = "bool" THEN <<IF EvalB(e, c) THEN 1 ELSE 0>>
  ELSE IntBytes(EvalN(e, c), Width(t.k))
G_Value(m) == Is(m, "value")
T_Value(m) == Ret(m, OkR(m.pos, ValueOf(m, m.x.n, m.x.t, Ctx(m))))

G_Tag(m) == Is(m, "tag")
T_Tag(m) ==
  LET b == m.x.b
      k == Min2(Len(b), Avail(m))
  IN Ret(m, IF Win(Input(m), m.pos, m.pos + k) # SubSeq(b, 1, k) THEN ErrR("Tag", m.pos)
            ELSE IF Avail(m) < Len(b) THEN IncR(Len(b) - Avail(m))
            ELSE OkR(m.pos + Len(b), Slice(Input(m), m.pos, Len(b))))

G_Take(m) == Is(m, "take")
T_Take(m) == Ret(m, TakeR(m, UsizeOf(m.x.n, Ctx(m))))

(* user functions given to Parse / LengthCount *)
IsPf(m, p) == m.mode = "eval" /\ m.x.x = "pf" /\ m.x.f.p = p
Pf(f) == [x |-> "pf", f |-> f]

G_PfNum(m) == IsPf(m, "num")
T_PfNum(m) == Ret(m, Num(m, m.x.f.w, m.x.f.e))
G_PfTake(m) == IsPf(m, "take")
T_PfTake(m) == Ret(m, TakeR(m, UsizeOf(m.x.f.n, Ctx(m))))
G_PfType(m) == IsPf(m, "ty")
T_PfType(m) == Eval(m, Ty(m.x.f.t, IF "re" \in DOMAIN m.x.f /\ m.x.f.re = "parse" THEN "un" ELSE m.x.f.e), m.pos, m.lim)
G_PfCallX(m) == IsPf(m, "callx")
T_PfCallX(m) ==
  LET d == DefOf(m, m.x.f.d)
      as == Args(d)
      c == CtxAt(m, m.pos, m.lim)
  IN NewObj(m, d, m.x.f.e,
       [i \in 1..Len(as) |-> LET a == m.x.f.args[i] IN
          IF a.op \in {"end", "evar", "eite"} THEN <<IF EvalEnd(a, c) = "be" THEN 0 ELSE 1>>
          ELSE ValueOf(m, a, as[i].t, c)], m.pos, m.lim)
G_PfErr(m) == IsPf(m, "err")       \* always fails, recoverably or not
T_PfErr(m) == Ret(m, IF m.x.f.hard THEN FailR(m.x.f.kind, m.pos) ELSE ErrR(m.x.f.kind, m.pos))
G_PfLData(m) == IsPf(m, "ldata")   \* nom::multi::length_data(number)
T_PfLData(m) == Eval(Push(m, [f |-> "len1", k |-> m.x.f.w, lim |-> m.lim, eof |-> "eof" \in DOMAIN m.x.f]),
                     Ty([k |-> m.x.f.w], m.x.f.e), m.pos, m.lim)
G_PfSub(m) == IsPf(m, "sub")       \* map_parser(take(n), f): f sees a window only
T_PfSub(m) ==
  LET n == UsizeOf(m.x.f.n, Ctx(m)) IN
  IF n > Avail(m) THEN Ret(m, TakeR(m, n))
  ELSE Eval(Push(m, [f |-> "sub", p |-> m.pos + n]), Pf(m.x.f.f), m.pos, m.pos + n)
G_PfLog(m) == IsPf(m, "lg")        \* logs its invocation, then f
T_PfLog(m) == Eval(Log(m, <<m.x.f.id, m.lim - m.pos>>), Pf(m.x.f.f), m.pos, m.lim)
G_PfCond(m) == IsPf(m, "cond")
T_PfCond(m) == IF EvalB(m.x.f.n, Ctx(m)) THEN Eval(Push(m, [f |-> "some"]), Pf(m.x.f.f), m.pos, m.lim)
               ELSE Ret(m, OkR(m.pos, <<0>>))
G_PfRest(m) == IsPf(m, "rest")
T_PfRest(m) == Ret(m, OkR(m.lim, Slice(Input(m), m.pos, Avail(m))))

-----------------------------------------------------------------------------
(* Returns                                                                 *)
Back(m, f) == m.mode = "ret" /\ m.stk # <<>> /\ Top(m).f = f
IsOk(m) == m.res.r = "ok"

G_RComplete(m) == Back(m, "complete")
T_RComplete(m) == Ret(Pop(m), IF m.res.r = "inc" THEN ErrR("Complete", Top(m).p) ELSE m.res)

G_ROpt(m) == Back(m, "opt")
T_ROpt(m) == Ret(Pop(m), CASE m.res.r = "ok" -> [m.res EXCEPT !.v = <<1>> \o @]
                           [] m.res.r = "err" -> OkR(Top(m).p, <<0>>)
                           [] OTHER -> m.res)

G_RSome(m) == Back(m, "some")
T_RSome(m) == Ret(Pop(m), IF IsOk(m) THEN [m.res EXCEPT !.v = <<1>> \o @] ELSE m.res)

G_RMany(m) == Back(m, "many0")
T_RMany(m) ==
  LET t == Top(m) IN
  CASE IsOk(m) /\ m.res.pos = t.p -> Ret(Pop(m), ErrR("Many0", t.p))
    [] IsOk(m) -> Eval(SetTop(m, [t EXCEPT !.p = m.res.pos, !.c = @ + 1, !.acc = @ \o m.res.v]),
                       t.s, m.res.pos, t.lim)
    [] m.res.r = "err" -> Ret(Pop(m), OkR(t.p, <<t.c>> \o t.acc))
    [] OTHER -> Ret(Pop(m), m.res)

G_RArr(m) == Back(m, "arr")
T_RArr(m) ==
  LET t == Top(m) IN
  CASE IsOk(m) /\ t.c + 1 = t.n -> Ret(Pop(m), OkR(m.res.pos, t.acc \o m.res.v))
    [] IsOk(m) -> Eval(SetTop(m, [t EXCEPT !.p = m.res.pos, !.c = @ + 1, !.acc = @ \o m.res.v]),
                       t.s, m.res.pos, t.lim)
    [] m.res.r = "err" -> Ret(Pop(m), Append1(m.res, "Count", t.p0))
    [] OTHER -> Ret(Pop(m), m.res)

G_RCount(m) == Back(m, "count")
T_RCount(m) ==
  LET t == Top(m) IN
  CASE IsOk(m) /\ t.c + 1 = t.n -> Ret(Pop(m), OkR(m.res.pos, <<t.n>> \o t.acc \o m.res.v))
    [] IsOk(m) -> Eval(SetTop(m, [t EXCEPT !.p = m.res.pos, !.c = @ + 1, !.acc = @ \o m.res.v]),
                       t.s, m.res.pos, t.lim)
    [] m.res.r = "err" -> Ret(Pop(m), Append1(m.res, "Count", t.p0))
    [] OTHER -> Ret(Pop(m), m.res)

PfWidth(f) == f.w
G_RLCount(m) == Back(m, "lcount1")
T_RLCount(m) ==
  LET t == Top(m) IN
  IF IsOk(m) THEN StartCount(Pop(m), t.s, m.res.pos, m.res.pos, t.lim, AsUsize(NumOf(t.f1.w, m.res.v)))
  ELSE Ret(Pop(m), m.res)

G_RPair1(m) == Back(m, "pair1")
T_RPair1(m) == IF IsOk(m) THEN Eval(SetTop(m, [f |-> "pair2", v |-> m.res.v]), Top(m).s, m.res.pos, Top(m).lim)
               ELSE Ret(Pop(m), m.res)
G_RPair2(m) == Back(m, "pair2")
T_RPair2(m) == Ret(Pop(m), IF IsOk(m) THEN [m.res EXCEPT !.v = Top(m).v \o @] ELSE m.res)

G_RStr(m) == Back(m, "str1")
T_RStr(m) ==
  IF ~IsOk(m) THEN Ret(Pop(m), m.res)
  ELSE LET n == NatOf(m.res.v)
           p == m.res.pos
           m1 == [Pop(m) EXCEPT !.pos = p, !.lim = Top(m).lim]
       IN IF n > Avail(m1) THEN Ret(m1, TakeR(m1, n))
          ELSE LET b == Win(Input(m), p, p + n)
               IN Ret(m1, IF Utf8Valid(b) THEN OkR(p + n, <<n>> \o b) ELSE ErrR("MapRes", p))

G_RLen(m) == Back(m, "len1")
T_RLen(m) ==
  IF ~IsOk(m) THEN Ret(Pop(m), m.res)
  ELSE LET m1 == [Pop(m) EXCEPT !.pos = m.res.pos, !.lim = Top(m).lim]
           n == NatOf(m.res.v)
       IN Ret(m1, IF Top(m).eof /\ n > Avail(m1) THEN ErrR("Eof", m1.pos) ELSE TakeR(m1, n))

G_RDbg(m) == Back(m, "dbg")
T_RDbg(m) == Ret([Pop(m) EXCEPT !.dbg = IF IsOk(m) THEN @ ELSE Append(@, <<Top(m).nm, m.res.r>>)], m.res)

(* conversions: From impls used by Into, functions used by Map *)
Conv(c, v) ==
  CASE c.c = "id"    -> v
    [] c.c = "wide"  -> Zeros(c.n) \o v                       \* unsigned widening by c.n bytes
    [] c.c = "tovec" -> <<v[2]>> \o SubSeq(v, 3, Len(v))      \* &[u8] -> Vec<u8>
    [] c.c = "len"   -> IntBytes(v[2], 8)                     \* |x: &[u8]| x.len()
    [] c.c = "inc8"  -> <<(v[1] + 1) % 256>>                  \* |x: u8| x.wrapping_add(1)
    [] c.c = "dbl8"  -> IntBytes(2 * v[1], 2)                 \* |x: u8| x as u16 * 2
    [] c.c = "hi16"  -> <<v[1]>>                              \* |x: u16| (x >> 8) as u8
    [] c.c = "vsum"  -> LET n == v[1] IN                      \* |v: Vec<u8>| sum as usize
                        IntBytes(FoldLeft(LAMBDA a, b : a + b, 0, Tail(v)), 8)
    [] c.c = "optor" -> IF v[1] = 1 THEN Tail(v) ELSE c.d     \* |o: Option<_>| o.unwrap_or(d)
G_RInto(m) == Back(m, "into")
T_RInto(m) == Ret(Pop(m), IF IsOk(m) THEN [m.res EXCEPT !.v = Conv(Top(m).m, @)] ELSE m.res)
G_RMap(m) == Back(m, "map")
T_RMap(m) ==
  LET t == Top(m) IN
  IF ~IsOk(m) THEN Ret(Pop(m), m.res)
  ELSE LET m1 == IF "id" \in DOMAIN t.m THEN Log(m, <<t.m.id>>) ELSE m
       IN Ret(Pop(m1), [m.res EXCEPT !.v = Conv(t.m, @)])

G_RVerify(m) == Back(m, "verify")
T_RVerify(m) ==
  LET t == Top(m) IN
  IF ~IsOk(m) THEN Ret(Pop(m), m.res)
  ELSE LET c == [Ctx(m) EXCEPT !.self = [t |-> t.t, v |-> m.res.v]]
           b == EvalB(t.n, c)
           m1 == IF IsLg(t.n) THEN Log(m, <<t.n.id, IF b THEN 1 ELSE 0>>) ELSE m
       IN Ret(Pop(m1), IF b THEN m.res ELSE ErrR("Verify", t.p))

G_RSub(m) == Back(m, "sub")
T_RSub(m) == Ret(Pop(m), IF IsOk(m) THEN [m.res EXCEPT !.pos = Top(m).p] ELSE m.res)

G_RLast(m) == m.mode = "ret" /\ m.stk = <<>>
T_RLast(m) == [m EXCEPT !.mode = "done"]

-----------------------------------------------------------------------------
(* Derived functions: gen/*.rs bodies, structs.rs quote_*                   *)
InObj(m) == m.mode = "obj"
Op(m) == Head(Top(m).ops)
OpIs(m, o) == InObj(m) /\ Top(m).ops # <<>> /\ Op(m).o = o
AttrIs(m, a) == OpIs(m, "attr") /\ Op(m).a.a \in a
(* advance the object on top with some updates already made in fr *)
Adv(m, fr) == SetTop(m, [fr EXCEPT !.ops = Tail(@)])
(* leave the object with an error result *)
Leave(m, res) == Ret(Pop(m), res)
OCtx(m) == LET o == Top(m) IN [env |-> o.env, pos |-> o.pos, lim |-> o.lim,
                               self |-> [t |-> [k |-> "u8"], v |-> <<0>>]]

(* ---- positions *)
Advance(m, n) ==
  LET o == Top(m) IN
  IF n > o.lim - o.pos THEN Leave(m, IncR(IF n >= HUGE THEN HUGE ELSE n - (o.lim - o.pos)))
  ELSE Adv(m, [o EXCEPT !.pos = @ + n])

G_Align(m) == AttrIs(m, {"AlignBefore", "AlignAfter"})
T_Align(m) ==
  LET o == Top(m)
      al == UsizeOf(Op(m).a.e, OCtx(m))
      off == o.pos - o.st
  IN Advance(m, (al - (off % al)) % al)

G_Skip(m) == AttrIs(m, {"SkipBefore", "SkipAfter"})
T_Skip(m) == Advance(m, UsizeOf(Op(m).a.e, OCtx(m)))

Goto(m, target) ==    \* target relative to the start of this object's input
  LET o == Top(m) IN
  IF target < 0 THEN Leave(m, ErrR("TooLarge", o.pos))
  ELSE IF o.st + target > o.olim
       THEN Leave(m, IncR(IF target >= HUGE THEN HUGE ELSE o.st + target - o.olim))
  ELSE Adv(m, [o EXCEPT !.pos = o.st + target, !.lim = o.olim])    \* out of any window a statement had set
G_Move(m) == AttrIs(m, {"Move"})
T_Move(m) == LET n == IsizeOf(Op(m).a.e, OCtx(m))
                 p == Top(m).pos - Top(m).st
             IN Goto(m, IF n >= HUGE THEN HUGE ELSE p + n)
G_MoveAbs(m) == AttrIs(m, {"MoveAbs"})
T_MoveAbs(m) == Goto(m, UsizeOf(Op(m).a.e, OCtx(m)))

(* ---- conditions *)
G_ErrorIf(m) == AttrIs(m, {"ErrorIf"})
T_ErrorIf(m) ==
  LET e == Op(m).a.e
      b == EvalB(e, OCtx(m))
      m1 == IF IsLg(e) THEN Log(m, <<e.id, IF b THEN 1 ELSE 0>>) ELSE m
  IN IF b THEN Leave(m1, ErrR("Verify", Top(m).pos)) ELSE Adv(m1, Top(m))
G_Exact(m) == AttrIs(m, {"Exact"})
T_Exact(m) == IF Top(m).pos # Top(m).lim THEN Leave(m, ErrR("Verify", Top(m).pos))
              ELSE Adv(m, Top(m))

(* ---- run-time byte order *)
G_SetEndian(m) == AttrIs(m, {"SetEndian"})
T_SetEndian(m) ==
  LET a == Op(m).a
      m1 == IF "id" \in DOMAIN a THEN Log(m, <<a.id>>) ELSE m   \* evaluated once, here
  IN Adv(m1, [Top(m) EXCEPT !.endv = EvalEnd(a.e, OCtx(m))])

(* ---- user statements *)
IsExec(m, s) == AttrIs(m, {"PreExec", "PostExec"}) /\ Op(m).a.s.s = s
Stmt(m) == Op(m).a.s
G_ExMark(m) == IsExec(m, "mk")      \* logs what is left of the input
T_ExMark(m) == Adv(Log(m, <<Stmt(m).id, Top(m).lim - Top(m).pos>>), Top(m))
G_ExSee(m) == IsExec(m, "mv")       \* logs a value in scope
T_ExSee(m) == Adv(Log(m, <<Stmt(m).id>> \o Top(m).env[Stmt(m).x].v), Top(m))
G_ExLet(m) == IsExec(m, "let")
T_ExLet(m) ==
  LET s == Stmt(m)
      v == IF s.t.k = "bool" THEN <<IF EvalB(s.e, OCtx(m)) THEN 1 ELSE 0>>
           ELSE IntBytes(EvalN(s.e, OCtx(m)), Width(s.t.k))
  IN Adv(m, [Top(m) EXCEPT !.env = (s.x :> [t |-> s.t, v |-> v]) @@ @])
G_ExRead(m) == IsExec(m, "rd")      \* let (i, x) = be_uN(i)?;
T_ExRead(m) ==
  LET s == Stmt(m)
      o == Top(m)
      r == Num([m EXCEPT !.pos = o.pos, !.lim = o.lim], s.t.k, s.e)
  IN IF r.r = "ok" THEN Adv(m, [o EXCEPT !.pos = r.pos, !.env = (s.x :> [t |-> s.t, v |-> r.v]) @@ @])
     ELSE Leave(m, r)
G_ExAdv(m) == IsExec(m, "adv")      \* let i = &i[min(n, i.len())..];
T_ExAdv(m) == LET o == Top(m) IN
  Adv(m, [o EXCEPT !.pos = @ + Min2(Stmt(m).n, o.lim - o.pos)])
G_ExWin(m) == IsExec(m, "win")      \* let wnd = &i[min(n, i.len())..]; let i = &i[..min(n, i.len())];
T_ExWin(m) == LET o == Top(m)
                  e == o.pos + Min2(Stmt(m).n, o.lim - o.pos)
              IN Adv(m, [o EXCEPT !.lim = e, !.wnd = <<e, o.lim>>])
G_ExUnwin(m) == IsExec(m, "unwin")  \* let i = wnd;
T_ExUnwin(m) == LET o == Top(m) IN Adv(m, [o EXCEPT !.pos = o.wnd[1], !.lim = o.wnd[2]])
G_ExPush(m) == IsExec(m, "push")    \* y.push(e as u8): an argument taken by mutable reference
T_ExPush(m) ==
  LET s == Stmt(m)
      y == Top(m).env[s.x]
  IN Adv(m, [Top(m) EXCEPT !.env[s.x].v = <<y.v[1] + 1>> \o Tail(y.v) \o <<EvalN(s.e, OCtx(m)) % 256>>])
G_ExBuilt(m) == IsExec(m, "built")  \* logs struct_def / enum_def
T_ExBuilt(m) == Adv(Log(m, <<Stmt(m).id>> \o Top(m).val), Top(m))

(* ---- fields *)
G_Field(m) == OpIs(m, "parse")
T_Field(m) == Eval(m, Op(m).p, Top(m).pos, Top(m).lim)
G_RField(m) == Back(m, "obj")
T_RField(m) ==
  LET o == Top(m)
      op == Op(m)
      nw == [t |-> op.t, v |-> m.res.v]
  IN IF ~IsOk(m) THEN Ret(Pop(m), m.res)
     ELSE [Adv(m, [o EXCEPT !.pos = m.res.pos,
                            !.env = IF op.n = "_" THEN @ ELSE (op.n :> nw) @@ @])
           EXCEPT !.mode = "obj"]

G_Build(m) == OpIs(m, "build")
T_Build(m) ==
  LET o == Top(m)
      ns == Op(m).ns
      val == Op(m).pre \o FlattenSeq([i \in 1..Len(ns) |-> o.env[ns[i]].v])
  IN Adv(m, [o EXCEPT !.val = val])

(* ---- enums *)
G_Match(m) == OpIs(m, "match")
ArmAccepts(m, v) ==
  LET o == Top(m)
      sel == o.env["selector"]
      env1 == PBinds(v.pat, sel) @@ o.env
  IN /\ PMatch(v.pat, sel)
     /\ v.hasguard => EvalB(v.guard, [OCtx(m) EXCEPT !.env = env1])
T_Match(m) ==
  LET o == Top(m)
      op == Op(m)
      ok == SelectSeq(op.arms, LAMBDA i : ArmAccepts(m, op.vs[i]))
  IN IF ok = <<>> THEN Leave(m, ErrR("Switch", o.pos))
     ELSE LET i == ok[1]
              v == op.vs[i]
              env1 == PBinds(v.pat, o.env["selector"]) @@ o.env
              ops == VariantOps(o.d, v, o.e)
                     \o <<[o |-> "build", pre |-> <<i - 1>>, ns |-> Names(v.fields)]>>
                     \o <<[o |-> "armend"]>>
          IN SetTop(m, [o EXCEPT !.ops = ops \o Tail(@), !.senv = o.env, !.env = env1])
G_ArmEnd(m) == OpIs(m, "armend")
(* names of the variant go out of scope; what a `&mut` argument refers to keeps its new value *)
T_ArmEnd(m) == LET o == Top(m) IN
  Adv(m, [o EXCEPT !.env = [n \in DOMAIN o.senv |-> IF "mt" \in DOMAIN o.senv[n].t THEN o.env[n] ELSE o.senv[n]]])

G_Disc(m) == OpIs(m, "disc")
T_Disc(m) == Eval(SetTop(m, [Top(m) EXCEPT !.ops = <<[o |-> "parse", n |-> "selector", t |-> [k |-> Top(m).d.repr],
                                                     p |-> Op(m).p], [o |-> "discm"]>> \o Tail(@)]),
                  Op(m).p, Top(m).pos, Top(m).lim)
G_DiscM(m) == OpIs(m, "discm")
T_DiscM(m) ==
  LET o == Top(m)
      vs == o.d.variants
      hit == {i \in 1..Len(vs) : vs[i].disc = o.env["selector"].v}
  IN IF hit = {} THEN Leave(m, ErrR("Switch", o.st))
     ELSE Adv(m, [o EXCEPT !.val = <<(CHOOSE i \in hit : \A j \in hit : i <= j) - 1>>])

G_End(m) == InObj(m) /\ Top(m).ops = <<>>
T_End(m) == Ret(Pop(m), OkR(Top(m).pos, Top(m).val))

-----------------------------------------------------------------------------
(* One named action per transition; Step is the same relation as a function *)
(* (the machine is deterministic: properties DetOne below).                 *)
A_Prim(m, n) == G_Prim(m) /\ n = T_Prim(m)
A_Opt(m, n) == G_Opt(m) /\ n = T_Opt(m)
A_Vec(m, n) == G_Vec(m) /\ n = T_Vec(m)
A_Arr(m, n) == G_Arr(m) /\ n = T_Arr(m)
A_Pair(m, n) == G_Pair(m) /\ n = T_Pair(m)
A_Str(m, n) == G_Str(m) /\ n = T_Str(m)
A_LenData(m, n) == G_LenData(m) /\ n = T_LenData(m)
A_Custom(m, n) == G_Custom(m) /\ n = T_Custom(m)
A_Call(m, n) == G_Call(m) /\ n = T_Call(m)
A_SetTy(m, n) == G_SetTy(m) /\ n = T_SetTy(m)
A_Complete(m, n) == G_Complete(m) /\ n = T_Complete(m)
A_Cond(m, n) == G_Cond(m) /\ n = T_Cond(m)
A_Count(m, n) == G_Count(m) /\ n = T_Count(m)
A_LCount(m, n) == G_LCount(m) /\ n = T_LCount(m)
A_Dbg(m, n) == G_Dbg(m) /\ n = T_Dbg(m)
A_Into(m, n) == G_Into(m) /\ n = T_Into(m)
A_Map(m, n) == G_Map(m) /\ n = T_Map(m)
A_Verify(m, n) == G_Verify(m) /\ n = T_Verify(m)
A_Const(m, n) == G_Const(m) /\ n = T_Const(m)
A_Default(m, n) == G_Default(m) /\ n = T_Default(m)
A_Value(m, n) == G_Value(m) /\ n = T_Value(m)
A_Tag(m, n) == G_Tag(m) /\ n = T_Tag(m)
A_Take(m, n) == G_Take(m) /\ n = T_Take(m)
A_PfNum(m, n) == G_PfNum(m) /\ n = T_PfNum(m)
A_PfTake(m, n) == G_PfTake(m) /\ n = T_PfTake(m)
A_PfType(m, n) == G_PfType(m) /\ n = T_PfType(m)
A_PfCallX(m, n) == G_PfCallX(m) /\ n = T_PfCallX(m)
A_PfErr(m, n) == G_PfErr(m) /\ n = T_PfErr(m)
A_PfLData(m, n) == G_PfLData(m) /\ n = T_PfLData(m)
A_PfSub(m, n) == G_PfSub(m) /\ n = T_PfSub(m)
A_PfLog(m, n) == G_PfLog(m) /\ n = T_PfLog(m)
A_PfCond(m, n) == G_PfCond(m) /\ n = T_PfCond(m)
A_PfRest(m, n) == G_PfRest(m) /\ n = T_PfRest(m)
A_RComplete(m, n) == G_RComplete(m) /\ n = T_RComplete(m)
A_ROpt(m, n) == G_ROpt(m) /\ n = T_ROpt(m)
A_RSome(m, n) == G_RSome(m) /\ n = T_RSome(m)
A_RMany(m, n) == G_RMany(m) /\ n = T_RMany(m)
A_RArr(m, n) == G_RArr(m) /\ n = T_RArr(m)
A_RCount(m, n) == G_RCount(m) /\ n = T_RCount(m)
A_RLCount(m, n) == G_RLCount(m) /\ n = T_RLCount(m)
A_RPair1(m, n) == G_RPair1(m) /\ n = T_RPair1(m)
A_RPair2(m, n) == G_RPair2(m) /\ n = T_RPair2(m)
A_RStr(m, n) == G_RStr(m) /\ n = T_RStr(m)
A_RLen(m, n) == G_RLen(m) /\ n = T_RLen(m)
A_RDbg(m, n) == G_RDbg(m) /\ n = T_RDbg(m)
A_RInto(m, n) == G_RInto(m) /\ n = T_RInto(m)
A_RMap(m, n) == G_RMap(m) /\ n = T_RMap(m)
A_RVerify(m, n) == G_RVerify(m) /\ n = T_RVerify(m)
A_RSub(m, n) == G_RSub(m) /\ n = T_RSub(m)
A_RLast(m, n) == G_RLast(m) /\ n = T_RLast(m)
A_Align(m, n) == G_Align(m) /\ n = T_Align(m)
A_Skip(m, n) == G_Skip(m) /\ n = T_Skip(m)
A_Move(m, n) == G_Move(m) /\ n = T_Move(m)
A_MoveAbs(m, n) == G_MoveAbs(m) /\ n = T_MoveAbs(m)
A_ErrorIf(m, n) == G_ErrorIf(m) /\ n = T_ErrorIf(m)
A_Exact(m, n) == G_Exact(m) /\ n = T_Exact(m)
A_SetEndian(m, n) == G_SetEndian(m) /\ n = T_SetEndian(m)
A_ExMark(m, n) == G_ExMark(m) /\ n = T_ExMark(m)
A_ExSee(m, n) == G_ExSee(m) /\ n = T_ExSee(m)
A_ExLet(m, n) == G_ExLet(m) /\ n = T_ExLet(m)
A_ExRead(m, n) == G_ExRead(m) /\ n = T_ExRead(m)
A_ExAdv(m, n) == G_ExAdv(m) /\ n = T_ExAdv(m)
A_ExWin(m, n) == G_ExWin(m) /\ n = T_ExWin(m)
A_ExUnwin(m, n) == G_ExUnwin(m) /\ n = T_ExUnwin(m)
A_ExPush(m, n) == G_ExPush(m) /\ n = T_ExPush(m)
A_ExBuilt(m, n) == G_ExBuilt(m) /\ n = T_ExBuilt(m)
A_Field(m, n) == G_Field(m) /\ n = T_Field(m)
A_RField(m, n) == G_RField(m) /\ n = T_RField(m)
A_Build(m, n) == G_Build(m) /\ n = T_Build(m)
A_Match(m, n) == G_Match(m) /\ n = T_Match(m)
A_ArmEnd(m, n) == G_ArmEnd(m) /\ n = T_ArmEnd(m)
A_Disc(m, n) == G_Disc(m) /\ n = T_Disc(m)
A_DiscM(m, n) == G_DiscM(m) /\ n = T_DiscM(m)
A_End(m, n) == G_End(m) /\ n = T_End(m)

StepRel(m, n) ==
  \/ A_Prim(m, n)
  \/ A_Opt(m, n)
  \/ A_Vec(m, n)
  \/ A_Arr(m, n)
  \/ A_Pair(m, n)
  \/ A_Str(m, n)
  \/ A_LenData(m, n)
  \/ A_Custom(m, n)
  \/ A_Call(m, n)
  \/ A_SetTy(m, n)
  \/ A_Complete(m, n)
  \/ A_Cond(m, n)
  \/ A_Count(m, n)
  \/ A_LCount(m, n)
  \/ A_Dbg(m, n)
  \/ A_Into(m, n)
  \/ A_Map(m, n)
  \/ A_Verify(m, n)
  \/ A_Const(m, n)
  \/ A_Default(m, n)
  \/ A_Value(m, n)
  \/ A_Tag(m, n)
  \/ A_Take(m, n)
  \/ A_PfNum(m, n)
  \/ A_PfTake(m, n)
  \/ A_PfType(m, n)
  \/ A_PfCallX(m, n)
  \/ A_PfErr(m, n)
  \/ A_PfLData(m, n)
  \/ A_PfSub(m, n)
  \/ A_PfLog(m, n)
  \/ A_PfCond(m, n)
  \/ A_PfRest(m, n)
  \/ A_RComplete(m, n)
  \/ A_ROpt(m, n)
  \/ A_RSome(m, n)
  \/ A_RMany(m, n)
  \/ A_RArr(m, n)
  \/ A_RCount(m, n)
  \/ A_RLCount(m, n)
  \/ A_RPair1(m, n)
  \/ A_RPair2(m, n)
  \/ A_RStr(m, n)
  \/ A_RLen(m, n)
  \/ A_RDbg(m, n)
  \/ A_RInto(m, n)
  \/ A_RMap(m, n)
  \/ A_RVerify(m, n)
  \/ A_RSub(m, n)
  \/ A_RLast(m, n)
  \/ A_Align(m, n)
  \/ A_Skip(m, n)
  \/ A_Move(m, n)
  \/ A_MoveAbs(m, n)
  \/ A_ErrorIf(m, n)
  \/ A_Exact(m, n)
  \/ A_SetEndian(m, n)
  \/ A_ExMark(m, n)
  \/ A_ExSee(m, n)
  \/ A_ExLet(m, n)
  \/ A_ExRead(m, n)
  \/ A_ExAdv(m, n)
  \/ A_ExWin(m, n)
  \/ A_ExUnwin(m, n)
  \/ A_ExPush(m, n)
  \/ A_ExBuilt(m, n)
  \/ A_Field(m, n)
  \/ A_RField(m, n)
  \/ A_Build(m, n)
  \/ A_Match(m, n)
  \/ A_ArmEnd(m, n)
  \/ A_Disc(m, n)
  \/ A_DiscM(m, n)
  \/ A_End(m, n)

Step(m) ==
  CASE G_Prim(m) -> T_Prim(m)
    [] G_Opt(m) -> T_Opt(m)
    [] G_Vec(m) -> T_Vec(m)
    [] G_Arr(m) -> T_Arr(m)
    [] G_Pair(m) -> T_Pair(m)
    [] G_Str(m) -> T_Str(m)
    [] G_LenData(m) -> T_LenData(m)
    [] G_Custom(m) -> T_Custom(m)
    [] G_Call(m) -> T_Call(m)
    [] G_SetTy(m) -> T_SetTy(m)
    [] G_Complete(m) -> T_Complete(m)
    [] G_Cond(m) -> T_Cond(m)
    [] G_Count(m) -> T_Count(m)
    [] G_LCount(m) -> T_LCount(m)
    [] G_Dbg(m) -> T_Dbg(m)
    [] G_Into(m) -> T_Into(m)
    [] G_Map(m) -> T_Map(m)
    [] G_Verify(m) -> T_Verify(m)
    [] G_Const(m) -> T_Const(m)
    [] G_Default(m) -> T_Default(m)
    [] G_Value(m) -> T_Value(m)
    [] G_Tag(m) -> T_Tag(m)
    [] G_Take(m) -> T_Take(m)
    [] G_PfNum(m) -> T_PfNum(m)
    [] G_PfTake(m) -> T_PfTake(m)
    [] G_PfType(m) -> T_PfType(m)
    [] G_PfCallX(m) -> T_PfCallX(m)
    [] G_PfErr(m) -> T_PfErr(m)
    [] G_PfLData(m) -> T_PfLData(m)
    [] G_PfSub(m) -> T_PfSub(m)
    [] G_PfLog(m) -> T_PfLog(m)
    [] G_PfCond(m) -> T_PfCond(m)
    [] G_PfRest(m) -> T_PfRest(m)
    [] G_RComplete(m) -> T_RComplete(m)
    [] G_ROpt(m) -> T_ROpt(m)
    [] G_RSome(m) -> T_RSome(m)
    [] G_RMany(m) -> T_RMany(m)
    [] G_RArr(m) -> T_RArr(m)
    [] G_RCount(m) -> T_RCount(m)
    [] G_RLCount(m) -> T_RLCount(m)
    [] G_RPair1(m) -> T_RPair1(m)
    [] G_RPair2(m) -> T_RPair2(m)
    [] G_RStr(m) -> T_RStr(m)
    [] G_RLen(m) -> T_RLen(m)
    [] G_RDbg(m) -> T_RDbg(m)
    [] G_RInto(m) -> T_RInto(m)
    [] G_RMap(m) -> T_RMap(m)
    [] G_RVerify(m) -> T_RVerify(m)
    [] G_RSub(m) -> T_RSub(m)
    [] G_RLast(m) -> T_RLast(m)
    [] G_Align(m) -> T_Align(m)
    [] G_Skip(m) -> T_Skip(m)
    [] G_Move(m) -> T_Move(m)
    [] G_MoveAbs(m) -> T_MoveAbs(m)
    [] G_ErrorIf(m) -> T_ErrorIf(m)
    [] G_Exact(m) -> T_Exact(m)
    [] G_SetEndian(m) -> T_SetEndian(m)
    [] G_ExMark(m) -> T_ExMark(m)
    [] G_ExSee(m) -> T_ExSee(m)
    [] G_ExLet(m) -> T_ExLet(m)
    [] G_ExRead(m) -> T_ExRead(m)
    [] G_ExAdv(m) -> T_ExAdv(m)
    [] G_ExWin(m) -> T_ExWin(m)
    [] G_ExUnwin(m) -> T_ExUnwin(m)
    [] G_ExPush(m) -> T_ExPush(m)
    [] G_ExBuilt(m) -> T_ExBuilt(m)
    [] G_Field(m) -> T_Field(m)
    [] G_RField(m) -> T_RField(m)
    [] G_Build(m) -> T_Build(m)
    [] G_Match(m) -> T_Match(m)
    [] G_ArmEnd(m) -> T_ArmEnd(m)
    [] G_Disc(m) -> T_Disc(m)
    [] G_DiscM(m) -> T_DiscM(m)
    [] G_End(m) -> T_End(m)

EnabledKinds(m) == {k \in 1..74 : CASE k = 1 -> G_Prim(m)
  [] k = 2 -> G_Opt(m)
  [] k = 3 -> G_Vec(m)
  [] k = 4 -> G_Arr(m)
  [] k = 5 -> G_Pair(m)
  [] k = 6 -> G_Str(m)
  [] k = 7 -> G_LenData(m)
  [] k = 8 -> G_Custom(m)
  [] k = 9 -> G_Call(m)
  [] k = 10 -> G_SetTy(m)
  [] k = 11 -> G_Complete(m)
  [] k = 12 -> G_Cond(m)
  [] k = 13 -> G_Count(m)
  [] k = 14 -> G_LCount(m)
  [] k = 15 -> G_Dbg(m)
  [] k = 16 -> G_Into(m)
  [] k = 17 -> G_Map(m)
  [] k = 18 -> G_Verify(m)
  [] k = 19 -> G_Const(m)
  [] k = 20 -> G_Default(m)
  [] k = 21 -> G_Value(m)
  [] k = 22 -> G_Tag(m)
  [] k = 23 -> G_Take(m)
  [] k = 24 -> G_PfNum(m)
  [] k = 25 -> G_PfTake(m)
  [] k = 26 -> G_PfType(m)
  [] k = 27 -> G_PfCallX(m)
  [] k = 28 -> G_PfErr(m)
  [] k = 29 -> G_PfLData(m)
  [] k = 30 -> G_PfSub(m)
  [] k = 31 -> G_PfLog(m)
  [] k = 32 -> G_PfCond(m)
  [] k = 33 -> G_PfRest(m)
  [] k = 34 -> G_RComplete(m)
  [] k = 35 -> G_ROpt(m)
  [] k = 36 -> G_RSome(m)
  [] k = 37 -> G_RMany(m)
  [] k = 38 -> G_RArr(m)
  [] k = 39 -> G_RCount(m)
  [] k = 40 -> G_RLCount(m)
  [] k = 41 -> G_RPair1(m)
  [] k = 42 -> G_RPair2(m)
  [] k = 43 -> G_RStr(m)
  [] k = 44 -> G_RLen(m)
  [] k = 45 -> G_RDbg(m)
  [] k = 46 -> G_RInto(m)
  [] k = 47 -> G_RMap(m)
  [] k = 48 -> G_RVerify(m)
  [] k = 49 -> G_RSub(m)
  [] k = 50 -> G_RLast(m)
  [] k = 51 -> G_Align(m)
  [] k = 52 -> G_Skip(m)
  [] k = 53 -> G_Move(m)
  [] k = 54 -> G_MoveAbs(m)
  [] k = 55 -> G_ErrorIf(m)
  [] k = 56 -> G_Exact(m)
  [] k = 57 -> G_SetEndian(m)
  [] k = 58 -> G_ExMark(m)
  [] k = 59 -> G_ExSee(m)
  [] k = 60 -> G_ExLet(m)
  [] k = 61 -> G_ExRead(m)
  [] k = 62 -> G_ExAdv(m)
  [] k = 63 -> G_ExBuilt(m)
  [] k = 64 -> G_Field(m)
  [] k = 65 -> G_RField(m)
  [] k = 66 -> G_Build(m)
  [] k = 67 -> G_Match(m)
  [] k = 68 -> G_ArmEnd(m)
  [] k = 69 -> G_Disc(m)
  [] k = 70 -> G_DiscM(m)
  [] k = 71 -> G_End(m)
  [] k = 72 -> G_ExPush(m)
  [] k = 73 -> G_ExWin(m)
  [] k = 74 -> G_ExUnwin(m)}

RECURSIVE Run(_)
Run(m) == IF m.mode = "done" THEN m ELSE Run(Step(m))

(* a parse about to start *)
Start(cid, cfg, d, entry, args, len) ==
  LET m0 == [cid |-> cid, cfg |-> cfg, mode |-> "eval", x |-> [x |-> "nop"], pos |-> 0, lim |-> len,
             res |-> OkR(0, <<>>), stk |-> <<>>, log |-> <<>>, dbg |-> <<>>]
      e == IF entry = "parse" THEN "be" ELSE entry
  IN IF d.kind = "type" THEN Eval(m0, Ty(d.t, IF entry = "parse" THEN "un" ELSE e), 0, len)   \* a library type, through Parse
     ELSE NewObj(m0, d, e, args, 0, len)
=============================================================================
