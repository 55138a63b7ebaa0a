------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* Types, values and the small expression language used inside attributes. *)
(*                                                                         *)
(* A value is a FLAT sequence of integers (no TLC-incomparable shapes):    *)
(*   integer/float of width w : its w bytes, most significant first        *)
(*   bool                     : <<0>> / <<1>>                              *)
(*   Option                   : <<0>> or <<1>> \o inner                    *)
(*   Vec                      : <<len>> \o items       array : items       *)
(*   String                   : <<len>> \o bytes                           *)
(*   &[u8] / LengthData       : <<offset in the caller's buffer, len>> \o  *)
(*                              bytes      (so identity, not just content) *)
(*   pair / struct            : concatenation of the fields                *)
(*   enum                     : <<variant index>> \o fields                *)
(* A type is a record with field k (see Width, and k = "opt" "vec" "arr"   *)
(* "tup" "str" "slice" "ld" "def" "phantom" "par" "cus").                  *)
(* Numbers used as counts/offsets saturate at HUGE: TLC integers are 32    *)
(* bits, inputs are far shorter than HUGE.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

HUGE == 16777216
Min2(a, b) == IF a < b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a

PrimKinds == {"u8","u16","u32","u64","u128","i8","i16","i32","i64","i128","f32","f64"}
Width(k) == CASE k \in {"u8","i8","bool","endian"} -> 1
              [] k \in {"u16","i16"} -> 2
              [] k \in {"u32","i32","f32","char"} -> 4
              [] k \in {"u64","i64","f64","usize","isize"} -> 8
              [] k \in {"u128","i128"} -> 16
ScalarKinds == PrimKinds \cup {"usize","isize","bool","endian","char"}
Signed(k) == k \in {"i8","i16","i32","i64","i128","isize"}

Zeros(n) == [i \in 1..n |-> 0]

(* big-endian bytes -> integer, saturating *)
NatOf(bs) == FoldLeft(LAMBDA a, b : IF a >= 65536 THEN HUGE ELSE a * 256 + b, 0, bs)
Compl(bs) == [i \in 1..Len(bs) |-> 255 - bs[i]]
NumOf(k, bs) == IF Signed(k) /\ bs[1] >= 128 THEN -(NatOf(Compl(bs)) + 1) ELSE NatOf(bs)

RECURSIVE NatBytes(_, _)
NatBytes(n, w) == IF w = 0 THEN <<>> ELSE NatBytes(n \div 256, w - 1) \o <<n % 256>>
IntBytes(n, w) == IF n >= 0 THEN NatBytes(n, w) ELSE Compl(NatBytes(-n - 1, w))

(* what `as usize` / `as isize` give for the saturated numbers *)
AsUsize(n) == IF n < 0 THEN HUGE ELSE Min2(n, HUGE)
AsIsize(n) == IF n < -HUGE THEN -HUGE ELSE Min2(n, HUGE)

Sum(a, b) == LET s == a + b IN IF s > HUGE THEN HUGE ELSE IF s < -HUGE THEN -HUGE ELSE s
Prod(a, b) == IF a = 0 \/ b = 0 THEN 0
              ELSE IF Abs(a) >= HUGE \div Abs(b) THEN HUGE ELSE a * b

(* UTF-8 validity exactly as Rust's core::str::from_utf8 *)
Cont(b) == b >= 128 /\ b <= 191
RECURSIVE Utf8From(_, _)
Utf8From(bs, i) ==
  LET n == Len(bs) IN
  IF i > n THEN TRUE
  ELSE LET b == bs[i] IN
    IF b < 128 THEN Utf8From(bs, i + 1)
    ELSE IF b >= 194 /\ b <= 223
      THEN i + 1 <= n /\ Cont(bs[i+1]) /\ Utf8From(bs, i + 2)
    ELSE IF b >= 224 /\ b <= 239
      THEN /\ i + 2 <= n /\ Cont(bs[i+1]) /\ Cont(bs[i+2])
           /\ (b = 224 => bs[i+1] >= 160) /\ (b = 237 => bs[i+1] <= 159)
           /\ Utf8From(bs, i + 3)
    ELSE IF b >= 240 /\ b <= 244
      THEN /\ i + 3 <= n /\ Cont(bs[i+1]) /\ Cont(bs[i+2]) /\ Cont(bs[i+3])
           /\ (b = 240 => bs[i+1] >= 144) /\ (b = 244 => bs[i+1] <= 143)
           /\ Utf8From(bs, i + 4)
    ELSE FALSE
Utf8Valid(bs) == Utf8From(bs, 1)

(***************************************************************************)
(* Expressions.  c is the context: [env, pos, lim, self] where env maps    *)
(* names in scope to [t, v], pos/lim delimit the current input variable,   *)
(* self is the value under verification (or any entry otherwise).          *)
(***************************************************************************)
Scalar(ent) == LET t == ent.t IN
  IF t.k = "bool" THEN ent.v[1] ELSE NumOf(t.k, ent.v)

(* x % n on a variable, exactly, with the sign of Rust *)
RemBytes(bs, n) == FoldLeft(LAMBDA a, b : (a * 256 + b) % n, 0, bs)
RemOf(t, v, n) == IF Signed(t.k) /\ v[1] >= 128 THEN -((RemBytes(Compl(v), n) + 1) % n) ELSE RemBytes(v, n)
RECURSIVE VarUnder(_)
(* e is a variable, possibly cast to usize: that variable's name, otherwise "" *)
VarUnder(e) == CASE e.op = "var" -> e.x [] e.op = "as" -> VarUnder(e.l) [] OTHER -> ""
(* exact comparison of two variables of the same type *)
Flip(t, v) == IF Signed(t.k) THEN <<(v[1] + 128) % 256>> \o Tail(v) ELSE v
LessBytes(a, b) == \E i \in 1..Len(a) : a[i] < b[i] /\ SubSeq(a, 1, i - 1) = SubSeq(b, 1, i - 1)

RECURSIVE EvalN(_, _), EvalB(_, _), UsizeOf(_, _), IsizeOf(_, _)
(* e as usize, e as isize: the low 64 bits when e is a wider or a differently
   signed variable *)
Low8(v) == SubSeq(v, Len(v) - 7, Len(v))
UsizeOf(e, c) ==
  CASE e.op = "var" /\ c.env[e.x].t.k \in {"u128", "i128"} -> NatOf(Low8(c.env[e.x].v))
    [] e.op \in {"as", "asi", "lg"} -> UsizeOf(e.l, c)
    [] e.op = "ite" -> IF EvalB(e.c, c) THEN UsizeOf(e.l, c) ELSE UsizeOf(e.r, c)
    [] OTHER -> AsUsize(EvalN(e, c))
IsizeOf(e, c) ==
  CASE e.op = "var" /\ c.env[e.x].t.k \in {"u64", "usize", "u128", "i128"} -> NumOf("i64", Low8(c.env[e.x].v))
    [] e.op \in {"as", "asi", "lg"} -> IsizeOf(e.l, c)
    [] e.op = "ite" -> IF EvalB(e.c, c) THEN IsizeOf(e.l, c) ELSE IsizeOf(e.r, c)
    [] OTHER -> AsIsize(EvalN(e, c))
EvalN(e, c) ==
  CASE e.op = "lit"  -> e.n
    [] e.op = "var"  -> Scalar(c.env[e.x])
    [] e.op = "as"   -> UsizeOf(e.l, c)                 \* (l as usize)
    [] e.op = "asi"  -> IsizeOf(e.l, c)                 \* (l as isize)
    [] e.op = "self" -> Scalar(c.self)
    [] e.op = "slen" -> IF c.self.t.k \in {"slice", "ld"} THEN c.self.v[2] ELSE c.self.v[1]
    [] e.op = "ilen" -> c.lim - c.pos                   \* i.len()
    [] e.op = "vlen" -> LET w == c.env[e.x] IN IF w.t.k = "slice" THEN w.v[2] ELSE w.v[1]
    [] e.op = "add"  -> Sum(EvalN(e.l, c), EvalN(e.r, c))
    [] e.op = "sub"  -> Sum(EvalN(e.l, c), -EvalN(e.r, c))
    [] e.op = "mul"  -> Prod(EvalN(e.l, c), EvalN(e.r, c))
    [] e.op = "mod"  ->
         LET x == VarUnder(e.l) IN
         IF x # "" /\ (e.l.op = "var" \/ ~Signed(c.env[x].t.k)) THEN RemOf(c.env[x].t, c.env[x].v, e.n)
         ELSE LET a == EvalN(e.l, c) IN IF a < 0 THEN -((-a) % e.n) ELSE a % e.n
    [] e.op = "neg"  -> -EvalN(e.l, c)
    [] e.op = "ite"  -> IF EvalB(e.c, c) THEN EvalN(e.l, c) ELSE EvalN(e.r, c)
    [] e.op = "lg"   -> EvalN(e.l, c)
EvalB(e, c) ==
  CASE e.op = "bool" -> e.b
    [] e.op = "bvar" -> c.env[e.x].v[1] = 1
    [] e.op \in {"eq", "ne", "lt", "gt", "le", "ge"} /\ e.l.op = "var" /\ e.r.op = "var" /\ c.env[e.l.x].t.k = c.env[e.r.x].t.k
         /\ c.env[e.l.x].t.k \in PrimKinds ->
         LET t == c.env[e.l.x].t
             a == Flip(t, c.env[e.l.x].v)
             b == Flip(t, c.env[e.r.x].v)
         IN (CASE e.op = "eq" -> a = b [] e.op = "ne" -> a # b
              [] e.op = "lt" -> LessBytes(a, b) [] e.op = "gt" -> LessBytes(b, a)
              [] e.op = "le" -> ~LessBytes(b, a) [] e.op = "ge" -> ~LessBytes(a, b))
    [] e.op = "eq"   -> EvalN(e.l, c) = EvalN(e.r, c)
    [] e.op = "ne"   -> EvalN(e.l, c) # EvalN(e.r, c)
    [] e.op = "lt"   -> EvalN(e.l, c) < EvalN(e.r, c)
    [] e.op = "gt"   -> EvalN(e.l, c) > EvalN(e.r, c)
    [] e.op = "le"   -> EvalN(e.l, c) <= EvalN(e.r, c)
    [] e.op = "ge"   -> EvalN(e.l, c) >= EvalN(e.r, c)
    [] e.op = "and"  -> EvalB(e.l, c) /\ EvalB(e.r, c)
    [] e.op = "or"   -> EvalB(e.l, c) \/ EvalB(e.r, c)
    [] e.op = "not"  -> ~EvalB(e.l, c)
    [] e.op = "some" -> c.env[e.x].v[1] = 1              \* x.is_some()
    [] e.op = "lg"   -> EvalB(e.l, c)
IsLg(e) == e.op = "lg"

(* an endianness expression: "be" or "le" *)
EvalEnd(e, c) ==
  CASE e.op = "end"  -> e.v
    [] e.op = "evar" -> IF c.env[e.x].v[1] = 0 THEN "be" ELSE "le"
    [] e.op = "eite" -> IF EvalB(e.c, c) THEN "be" ELSE "le"

(***************************************************************************)
(* Selector patterns.  Match(p, t, v) on a flat value v of type t.         *)
(***************************************************************************)
RECURSIVE PMatch(_, _)
PMatch(p, ent) ==
  CASE p.p = "lit"   -> Scalar(ent) = p.n
    [] p.p = "range" -> Scalar(ent) >= p.lo /\ Scalar(ent) <= p.hi      \* lo..=hi
    [] p.p = "from"  -> Scalar(ent) >= p.lo                             \* lo..
    [] p.p = "or"    -> \E i \in 1..Len(p.ps) : PMatch(p.ps[i], ent)
    [] p.p = "wild"  -> TRUE
    [] p.p = "bind"  -> TRUE
    [] p.p = "at"    -> PMatch(p.q, ent)                                \* x @ q
    [] p.p = "flat"  -> ent.v = p.v          \* a constructor pattern, by its flat value
    [] p.p = "ctor"  -> Len(ent.v) >= Len(p.v) /\ SubSeq(ent.v, 1, Len(p.v)) = p.v   \* K(x): tag, then x
    [] p.p = "some"  -> ent.v[1] = 1 /\ PMatch(p.q, [t |-> ent.t.t, v |-> Tail(ent.v)])
(* what a pattern binds *)
PBinds(p, ent) ==
  CASE p.p \in {"bind", "at"} -> (p.x :> ent)
    [] p.p = "ctor" /\ "x" \in DOMAIN p -> (p.x :> [t |-> p.t, v |-> SubSeq(ent.v, Len(p.v) + 1, Len(ent.v))])
    [] OTHER -> <<>>
=============================================================================
