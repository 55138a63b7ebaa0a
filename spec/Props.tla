-------------------------------- MODULE Props --------------------------------
(***************************************************************************)
(* The properties of properties.jsonl, stated on the specification and     *)
(* checked by TLC.                                                         *)
(*                                                                         *)
(* System: a client holding a definition, arguments and a buffer.  It      *)
(*   Deliver   receives more bytes, one at a time or as many as it was     *)
(*             asked for, and parses what it has, until the parser gives a *)
(*             verdict (the streaming protocol, C04), and                  *)
(*   Compare   parses a complete buffer with the definition and with a     *)
(*             variation of it (an attribute removed, moved or replaced by *)
(*             what it stands for, another entry point, another            *)
(*             configuration): the two outcomes must be related as the     *)
(*             property says.                                              *)
(* The definitions and buffers are those replayed on the real code; the    *)
(* variations are not rendered in Rust: that the specification gives them  *)
(* the meaning stated here is what is model-checked, and that the code     *)
(* follows the specification is what Conform checks.                       *)
(***************************************************************************)
EXTENDS NomDerive, Json, IOUtils

Corpus == JsonDeserialize(IOEnv.CORPUS)
PROP == IOEnv.PROP
NC == Len(Corpus.cases)
Case(i) == Corpus.cases[i]
Prog(i) == Corpus.progs[Case(i).p]
Main(i) == Prog(i).defs[Prog(i).main]
Feats(i) == {Prog(i).feats[j] : j \in 1..Len(Prog(i).feats)}
Uses(i, S) == Feats(i) \cap S # {}

-----------------------------------------------------------------------------
(* Variations.  cid = [i: case, b: buffer, t: variation, j: its parameter]  *)
Terminals == {"Tag", "Take", "Value", "Parse", "Ignore"}
Wrappers  == {"Complete", "Debug", "Cond", "Count", "Into", "LengthCount", "Map", "Verify"}
ParserAttrs == Terminals \cup Wrappers
OrderAttrs == {"BigEndian", "LittleEndian"}
LogOnly(a) == a.a \in {"PreExec", "PostExec"} /\ a.s.s \in {"mk", "mv", "built"}

Keep(attrs, Test(_)) == SelectSeq(attrs, Test)
OnAttrs(f, Fn(_)) == [f EXCEPT !.attrs = Fn(@)]
OnFields(d, Fn(_)) ==
  CASE d.kind = "struct" -> [d EXCEPT !.fields = [j \in 1..Len(d.fields) |-> Fn(d.fields[j])]]
    [] d.kind = "enum" -> [d EXCEPT !.variants = [v \in 1..Len(d.variants) |->
                             [d.variants[v] EXCEPT !.fields = [j \in 1..Len(d.variants[v].fields) |-> Fn(d.variants[v].fields[j])]]]]
    [] OTHER -> d
OnVariants(d, Fn(_)) ==
  IF d.kind # "enum" THEN d ELSE [d EXCEPT !.variants = [v \in 1..Len(d.variants) |-> Fn(d.variants[v])]]

(* everything after the attribute giving the final parser, parser attributes only *)
RECURSIVE CutTail(_)
CutTail(attrs) ==
  IF attrs = <<>> THEN <<>>
  ELSE IF Head(attrs).a \in Terminals THEN <<Head(attrs)>> \o Keep(Tail(attrs), LAMBDA a : a.a \notin ParserAttrs)
  ELSE <<Head(attrs)>> \o CutTail(Tail(attrs))
SortAttrs(attrs) == Keep(attrs, LAMBDA a : a.a \in PostAttrs) \o Keep(attrs, LAMBDA a : a.a \notin PreAttrs \cup PostAttrs)
                    \o Keep(attrs, LAMBDA a : a.a \in PreAttrs)
FirstParser(attrs) == LET s == Keep(attrs, LAMBDA a : a.a \in ParserAttrs) IN IF s = <<>> THEN "" ELSE s[1].a
LastParser(attrs) == LET s == Keep(attrs, LAMBDA a : a.a \in ParserAttrs) IN IF s = <<>> THEN "" ELSE s[Len(s)].a
Subst(attrs, nm, a1) == [j \in 1..Len(attrs) |-> IF attrs[j].a = nm /\ \A k \in 1..(j-1) : attrs[k].a # nm THEN a1 ELSE attrs[j]]   \* the first one
Lit(n) == [op |-> "lit", n |-> n]
Bool(b) == [op |-> "bool", b |-> b]

OrderAttr(d) == IF Has(d.attrs, "BigEndian") THEN "BigEndian" ELSE "LittleEndian"
MoveDefault(d, front) ==
  LET df == SelectSeq(d.variants, IsDefault)
      ot == SelectSeq(d.variants, LAMBDA v : ~IsDefault(v))
  IN [d EXCEPT !.variants = IF front THEN df \o ot ELSE ot \o df]

(* the alternatives for a field whose first parser attribute is nm *)
OnFirst(d, nm, Fn(_)) == OnFields(d, LAMBDA f : IF FirstParser(f.attrs) = nm THEN Fn(f) ELSE f)
(* ... whose only parser attribute is nm *)
Only(f, nm) == FirstParser(f.attrs) = nm /\ Len(Keep(f.attrs, LAMBDA a : a.a \in ParserAttrs)) = 1

(* SkipBefore(n) as the first thing done before a field: a field taking n bytes *)
DropFirst(attrs, nm) ==
  LET j == CHOOSE j \in 1..Len(attrs) : attrs[j].a = nm /\ \A k \in 1..(j-1) : attrs[k].a # nm
  IN SubSeq(attrs, 1, j - 1) \o SubSeq(attrs, j + 1, Len(attrs))
RECURSIVE SkipFields(_, _)
SkipFields(fs, j) ==
  IF j > Len(fs) THEN <<>>
  ELSE LET f == fs[j]
           pre == Keep(f.attrs, LAMBDA a : a.a \in PreAttrs)
       IN (IF pre # <<>> /\ pre[1].a = "SkipBefore"
           THEN <<[n |-> "skipped" \o ToString(j), t |-> [k |-> "slice"], attrs |-> <<[a |-> "Take", e |-> pre[1].e]>>],
                  [f EXCEPT !.attrs = DropFirst(@, "SkipBefore")]>>
           ELSE <<f>>) \o SkipFields(fs, j + 1)

(* SetEndian of constants resolved: every field gets the order that is in force *)
RECURSIVE Unset(_, _)
Unset(fs, cur) ==
  IF fs = <<>> THEN <<>>
  ELSE LET f == Head(fs)
           c1 == IF Has(f.attrs, "SetEndian") THEN Get(f.attrs, "SetEndian").e.v ELSE cur
           own == FieldOrder(f.attrs, "un") \in {"be", "le"}
           at == Keep(f.attrs, LAMBDA a : a.a # "SetEndian")
       IN <<[f EXCEPT !.attrs = IF own \/ c1 = "un" THEN at ELSE Append(at, [a |-> IF c1 = "be" THEN "BigEndian" ELSE "LittleEndian"])]>> \o Unset(Tail(fs), c1)
ConstSets(d) == /\ \A k \in 1..Len(d.attrs) : d.attrs[k].a = "SetEndian" => d.attrs[k].e.op = "end" /\ "id" \notin DOMAIN d.attrs[k]
                /\ \A j \in 1..Len(d.fields) : LET as == d.fields[j].attrs IN
                     /\ \A k \in 1..Len(as) : as[k].a = "SetEndian" => as[k].e.op = "end" /\ "id" \notin DOMAIN as[k]
                     /\ Len(Keep(as, LAMBDA a : a.a = "SetEndian")) <= 1

(* variations of the main definition *)
VaryMain(d, t, j) ==
  CASE t = "cut"      -> [d EXCEPT !.fields = SubSeq(@, 1, j),
                                   !.attrs = Keep(@, LAMBDA a : a.a \notin PostAttrs)]
    [] t = "drv2attr" -> [d EXCEPT !.drv = "Nom", !.attrs = Append(@, [a |-> IF d.drv = "NomBE" THEN "BigEndian" ELSE "LittleEndian"])]
    [] t = "attr2drv" -> [d EXCEPT !.drv = IF OrderAttr(d) = "BigEndian" THEN "NomBE" ELSE "NomLE",
                                   !.attrs = Keep(@, LAMBDA a : a.a \notin OrderAttrs)]
    [] t = "push"     -> LET o == IF TypeOrder(d) = "be" THEN "BigEndian" ELSE "LittleEndian"
                         IN OnFields([d EXCEPT !.drv = "Nom", !.attrs = Keep(@, LAMBDA a : a.a \notin OrderAttrs)],
                                     LAMBDA f : IF FieldOrder(f.attrs, "un") = "un" THEN [f EXCEPT !.attrs = Append(@, [a |-> o])] ELSE f)
    [] t = "addbig"   -> [d EXCEPT !.attrs = Append(@, [a |-> "BigEndian"])]
    [] t = "addlittle" -> [d EXCEPT !.attrs = Append(@, [a |-> "LittleEndian"])]
    [] t = "setconst" -> [d EXCEPT !.drv = "Nom", !.attrs = Append(Keep(@, LAMBDA a : a.a \notin OrderAttrs),
                                     [a |-> "SetEndian", e |-> [op |-> "end", v |-> TypeOrder(d)]])]
    [] t = "unset"    -> [d EXCEPT !.drv = "Nom", !.attrs = Keep(@, LAMBDA a : a.a \notin OrderAttrs \cup {"SetEndian"}),
                                   !.fields = Unset(@, IF TypeOrder(d) = "set" THEN Get(d.attrs, "SetEndian").e.v ELSE TypeOrder(d))]
    [] t = "complete" -> IF Has(d.attrs, "Complete") THEN [d EXCEPT !.attrs = Keep(@, LAMBDA a : a.a # "Complete")]
                         ELSE [d EXCEPT !.attrs = Append(@, [a |-> "Complete"])]
    [] t = "count0"   -> OnFirst(d, "Count", LAMBDA f : [f EXCEPT !.attrs = Subst(@, "Count", [a |-> "Count", e |-> Lit(0)])])
    [] t = "count0i"  -> OnFirst(d, "Count", LAMBDA f : [f EXCEPT !.attrs = Subst(@, "Count", [a |-> "Ignore"])])
    [] t = "count2"   -> OnFields(d, LAMBDA f : IF Only(f, "Count") THEN [f EXCEPT !.attrs = Subst(@, "Count", [a |-> "Count", e |-> Lit(2)])] ELSE f)
    [] t = "count2p"  -> OnFields(d, LAMBDA f : IF Only(f, "Count")
                           THEN [f EXCEPT !.attrs = Keep(@, LAMBDA a : a.a # "Count"), !.t = [k |-> "tup", a |-> f.t.t, b |-> f.t.t]] ELSE f)
    [] t = "lcount"   -> OnFields(d, LAMBDA f : IF Only(f, "LengthCount") /\ Get(f.attrs, "LengthCount").f.p = "num"
                           THEN [f EXCEPT !.attrs = Subst(@, "LengthCount", [a |-> "Count", e |-> Lit(j)])] ELSE f)
    [] t = "cond1"    -> OnFirst(d, "Cond", LAMBDA f : [f EXCEPT !.attrs = Subst(@, "Cond", [a |-> "Cond", e |-> Bool(TRUE)])])
    [] t = "cond1i"   -> OnFields(d, LAMBDA f : IF Only(f, "Cond") THEN [f EXCEPT !.attrs = Keep(@, LAMBDA a : a.a # "Cond"), !.t = f.t.t] ELSE f)
    [] t = "cond1o"   -> OnFields(d, LAMBDA f : IF Only(f, "Cond") THEN [f EXCEPT !.attrs = Subst(@, "Cond", [a |-> "Cond", e |-> Bool(TRUE)])] ELSE f)
    [] t = "cond0"    -> OnFirst(d, "Cond", LAMBDA f : [f EXCEPT !.attrs = Subst(@, "Cond", [a |-> "Cond", e |-> Bool(FALSE)])])
    [] t = "cond0i"   -> OnFirst(d, "Cond", LAMBDA f : [f EXCEPT !.attrs = Subst(@, "Cond", [a |-> "Ignore"])])
    [] t = "noorder"  -> OnFields(d, LAMBDA f : IF FirstParser(f.attrs) \in {"Value", "Ignore"}
                           THEN [f EXCEPT !.attrs = Append(Keep(@, LAMBDA a : a.a \notin OrderAttrs), [a |-> "BigEndian"])] ELSE f)
    [] t = "skips"    -> IF d.kind = "struct" THEN [d EXCEPT !.fields = SkipFields(@, 1)] ELSE d
    [] t = "align1"   -> OnFields(d, LAMBDA f : [f EXCEPT !.attrs = <<[a |-> "AlignBefore", e |-> Lit(1)], [a |-> "SkipAfter", e |-> Lit(0)], [a |-> "Move", e |-> Lit(0)]>> \o @])
    [] t = "only"     -> [d EXCEPT !.variants = <<@[j]>>]
    [] t = "without"  -> [d EXCEPT !.variants = SubSeq(@, 1, j - 1) \o SubSeq(@, j + 1, Len(@))]
    [] t = "dfront"   -> MoveDefault(d, TRUE)
    [] t = "dback"    -> MoveDefault(d, FALSE)
    [] t = "catch"    -> [d EXCEPT !.variants = Append(@, [n |-> "Catch", pat |-> [p |-> "wild"], hasguard |-> FALSE, guard |-> Bool(TRUE), shape |-> "unit", attrs |-> <<>>, fields |-> <<>>])]
    [] t = "noverify" -> OnFields(d, LAMBDA f : [f EXCEPT !.attrs = Keep(@, LAMBDA a : a.a # "Verify")])
    [] t = "noerrif"  -> OnFields(d, LAMBDA f : [f EXCEPT !.attrs = Keep(@, LAMBDA a : a.a # "ErrorIf")])
    [] t = "noexact"  -> [d EXCEPT !.attrs = Keep(@, LAMBDA a : a.a # "Exact")]
    [] t = "exact"    -> [d EXCEPT !.attrs = Append(@, [a |-> "Exact"])]
    [] OTHER -> d
(* variations of every definition *)
VaryAll(d, t) ==
  CASE t = "cuttail" -> OnFields(d, LAMBDA f : [f EXCEPT !.attrs = CutTail(@)])
    [] t = "sorted"  -> OnFields([d EXCEPT !.attrs = SortAttrs(@)], LAMBDA f : [f EXCEPT !.attrs = SortAttrs(@)])
    [] t = "nodiag"  -> LET S == {"Debug", "DebugDerive", "InputName", "GenericErrors"} IN
                        OnFields([d EXCEPT !.attrs = Keep(@, LAMBDA a : a.a \notin S)],
                                 LAMBDA f : [f EXCEPT !.attrs = Keep(@, LAMBDA a : a.a \notin S)])
    [] t = "diag"    -> OnFields([d EXCEPT !.attrs = <<[a |-> "Debug"], [a |-> "DebugDerive"]>> \o @],
                                 LAMBDA f : [f EXCEPT !.attrs = <<[a |-> "Debug"]>> \o @])
    [] t = "nolog"   -> OnVariants(OnFields([d EXCEPT !.attrs = Keep(@, LAMBDA a : ~LogOnly(a))],
                                 LAMBDA f : [f EXCEPT !.attrs = Keep(@, LAMBDA a : ~LogOnly(a))]),
                                 LAMBDA v : [v EXCEPT !.attrs = Keep(@, LAMBDA a : ~LogOnly(a))])
    [] OTHER -> d

InputImpl(m) == m.cid.b
DefOfImpl(m, n) ==
  LET p == Prog(m.cid.i)
      d == VaryAll(p.defs[n], m.cid.t)
  IN IF n = p.main THEN VaryMain(d, m.cid.t, m.cid.j) ELSE d

-----------------------------------------------------------------------------
(* Running the machine, with what must hold at every step of every run      *)
StepInv(m, n) ==
  /\ 0 <= n.pos /\ n.pos <= n.lim /\ n.lim <= Len(n.cid.b)                                     \* never outside the window
  /\ n.mode \in {"ret", "done"} /\ n.res.r = "ok" => n.res.pos >= 0 /\ n.res.pos <= Len(n.cid.b)
  /\ \A k \in 1..Len(n.stk) : n.stk[k].f = "obj" => n.stk[k].st <= n.stk[k].pos /\ n.stk[k].pos <= n.stk[k].lim
  /\ Len(n.log) - Len(m.log) \in {0, 1} /\ SubSeq(n.log, 1, Len(m.log)) = m.log                \* side effects are never undone
  /\ Len(n.stk) - Len(m.stk) \in {-1, 0, 1}
  /\ (G_Align(m) /\ n.mode = "obj") =>
       LET o == Top(m) p == Top(n) al == UsizeOf(Op(m).a.e, OCtx(m))
       IN (p.pos - p.st) % al = 0 /\ p.pos >= o.pos /\ p.pos - o.pos < al
  /\ (G_Skip(m) /\ n.mode = "obj") => Top(n).pos - Top(m).pos = UsizeOf(Op(m).a.e, OCtx(m))
  /\ (G_MoveAbs(m) /\ n.mode = "obj") => Top(n).pos - Top(n).st = UsizeOf(Op(m).a.e, OCtx(m))
  /\ (G_Move(m) /\ n.mode = "obj") => Top(n).pos - Top(m).pos = IsizeOf(Op(m).a.e, OCtx(m))
  /\ (G_RCount(m) /\ n.mode = "ret" /\ n.res.r = "ok") => n.res.v[1] = Top(m).n /\ Top(m).c + 1 = Top(m).n
  /\ (m.mode = "eval" /\ m.x.x \in {"const", "default", "value"}) => n.res.r = "ok" /\ n.res.pos = m.pos
  /\ (G_Tag(m) /\ n.res.r = "ok") => SubSeq(n.res.v, 3, Len(n.res.v)) = m.x.b
  /\ (G_RComplete(m) => n.res.r # "inc")
  /\ ((G_ErrorIf(m) \/ G_Exact(m)) /\ Len(n.stk) = Len(m.stk)) => Top(n).pos = Top(m).pos /\ Top(n).env = Top(m).env
  /\ (PROP = "C16" => Cardinality(EnabledKinds(m)) = 1)                                        \* deterministic, never stuck
RECURSIVE RunC(_, _)
RunC(m, k) ==
  IF m.mode = "done" THEN m
  ELSE LET n == Step(m)
       IN IF k > 20000 THEN Assert(FALSE, <<"no end", m.cid.i>>)
          ELSE IF Assert(StepInv(m, n), <<"STEP", PROP, m.cid.i, m.cid.t, m.mode, m.pos>>) THEN RunC(n, k + 1) ELSE n

Run3(i, b, t, j, e, cfg) ==
  LET c == Case(i)
      p == Prog(i)
      cid == [i |-> i, b |-> b, t |-> t, j |-> j]
      d == DefOfImpl([cid |-> cid], p.main)
  IN RunC(Start(cid, cfg, d, e, c.args, Len(b)), 0)
Out(m) == [res |-> m.res, log |-> m.log, dbg |-> m.dbg]
O(i, t, j) == Out(Run3(i, Case(i).input, t, j, Case(i).e, Prog(i).cfg))
OE(i, t, e) == Out(Run3(i, Case(i).input, t, 0, e, Prog(i).cfg))
OB(i, b, t, j) == Out(Run3(i, b, t, j, Case(i).e, Prog(i).cfg))
Same(a, b) == a.res = b.res /\ a.log = b.log
(* same outcome up to the description of an error *)
Kind(a, b) == a.res.r = b.res.r /\ a.res.pos = b.res.pos /\ a.res.v = b.res.v /\ (a.res.r = "inc" => a.res.n = b.res.n)

(* definitions whose outcome can only change from Incomplete to a verdict when more data comes *)
Streaming(i) == ~Uses(i, {"many0", "optty", "Complete", "Exact", "op:ilen", "p:rest", "s:adv", "s:win", "t:arr"})
Positional == {"AlignBefore", "AlignAfter", "SkipBefore", "SkipAfter", "Move", "MoveAbs"}

-----------------------------------------------------------------------------
(* Values are well formed: V(i, t, v) = rest of v after a value of type t    *)
RECURSIVE Shape(_, _, _, _), ShapeN(_, _, _, _, _), ShapeF(_, _, _, _)
Bad == <<-1>>
Shape(i, b, t, v) ==
  IF v = Bad THEN Bad
  ELSE CASE t.k \in ScalarKinds -> IF Len(v) < Width(t.k) THEN Bad ELSE SubSeq(v, Width(t.k) + 1, Len(v))
    [] t.k = "cus" -> Shape(i, b, [k |-> t.w], IF t.e # "tri" THEN v ELSE IF v = <<>> \/ v[1] \notin 0..2 THEN Bad ELSE Tail(v))
    [] t.k = "w8" -> Shape(i, b, [k |-> "u8"], v)
    [] t.k = "opt" -> IF v = <<>> \/ v[1] \notin {0, 1} THEN Bad ELSE IF v[1] = 0 THEN Tail(v) ELSE Shape(i, b, t.t, Tail(v))
    [] t.k = "vec" -> IF v = <<>> THEN Bad ELSE ShapeN(i, b, t.t, v[1], Tail(v))
    [] t.k = "arr" -> ShapeN(i, b, t.t, t.n, v)
    [] t.k = "tup" -> Shape(i, b, t.b, Shape(i, b, t.a, v))
    [] t.k = "str" -> IF v = <<>> \/ Len(v) < 1 + v[1] \/ ~Utf8Valid(SubSeq(v, 2, 1 + v[1])) THEN Bad ELSE SubSeq(v, 2 + v[1], Len(v))
    [] t.k \in {"slice", "ld"} ->          \* a place in the caller's buffer and the bytes that are there
         IF Len(v) < 2 \/ Len(v) < 2 + v[2] THEN Bad
         ELSE IF v[2] = 0 \/ (v[1] + v[2] <= Len(b) /\ SubSeq(b, v[1] + 1, v[1] + v[2]) = SubSeq(v, 3, 2 + v[2]))
              THEN SubSeq(v, 3 + v[2], Len(v)) ELSE Bad
    [] t.k = "phantom" -> v
    [] t.k = "box" -> Shape(i, b, t.t, v)
    [] t.k = "dfl" -> IF Len(v) < 2 THEN Bad ELSE SubSeq(v, 3, Len(v))
    [] t.k = "def" -> ShapeF(i, b, Prog(i).defs[t.d], v)
    [] OTHER -> Bad
ShapeN(i, b, t, n, v) == IF n = 0 \/ v = Bad THEN v ELSE ShapeN(i, b, t, n - 1, Shape(i, b, t, v))
RECURSIVE ShapeFs(_, _, _, _)
ShapeFs(i, b, fs, v) == IF fs = <<>> \/ v = Bad THEN v ELSE ShapeFs(i, b, Tail(fs), Shape(i, b, Head(fs).t, v))
ShapeF(i, b, d, v) ==
  CASE d.kind = "struct" -> ShapeFs(i, b, d.fields, v)
    [] d.kind = "enum" -> IF v = <<>> \/ v[1] + 1 > Len(d.variants) THEN Bad ELSE ShapeFs(i, b, d.variants[v[1] + 1].fields, Tail(v))
    [] d.kind = "fieldless" -> IF v = <<>> \/ v[1] + 1 > Len(d.variants) THEN Bad ELSE Tail(v)
    [] d.kind = "type" -> Shape(i, b, d.t, v)
WellTyped(i, o) == o.res.r = "ok" => ShapeF(i, Case(i).input, Main(i), o.res.v) = <<>>
ErrInside(i, o) == /\ o.res.r \in {"err", "fail"} => o.res.ch # <<>> /\ \A k \in 1..Len(o.res.ch) : o.res.ch[k][2] >= 0 /\ o.res.ch[k][2] <= Len(Case(i).input)
                   /\ o.res.r = "inc" => o.res.n >= 0

(* encoding, the inverse of decoding: <<bytes, rest of v>> *)
RECURSIVE Enc(_, _, _), EncN(_, _, _, _)
Enc(t, v, e) ==
  CASE t.k \in PrimKinds -> LET w == Width(t.k) x == SubSeq(v, 1, w) IN <<IF e = "le" THEN Reverse(x) ELSE x, SubSeq(v, w + 1, Len(v))>>
    [] t.k = "cus" -> IF t.e # "tri" THEN Enc([k |-> t.w], v, t.e) ELSE Enc([k |-> t.w], Tail(v), IF v[1] = 2 THEN "le" ELSE "be")
    [] t.k = "opt" -> IF v[1] = 0 THEN <<<<>>, Tail(v)>> ELSE Enc(t.t, Tail(v), e)
    [] t.k = "vec" -> EncN(t.t, v[1], Tail(v), e)
    [] t.k = "arr" -> EncN(t.t, t.n, v, e)
    [] t.k = "tup" -> LET a == Enc(t.a, v, e) b == Enc(t.b, a[2], e) IN <<a[1] \o b[1], b[2]>>
    [] t.k = "str" -> <<NatBytes(v[1], 4) \o SubSeq(v, 2, 1 + v[1]), SubSeq(v, 2 + v[1], Len(v))>>
    [] t.k = "ld" -> LET l == NatBytes(v[2], IF t.l # "tl" THEN Width(t.l) ELSE IF e \in {"be", "le"} THEN 2 ELSE 1) IN
                     <<(IF e = "le" THEN Reverse(l) ELSE l) \o SubSeq(v, 3, 2 + v[2]), SubSeq(v, 3 + v[2], Len(v))>>
EncN(t, n, v, e) == IF n = 0 THEN <<<<>>, v>> ELSE LET a == Enc(t, v, e) r == EncN(t, n - 1, a[2], e) IN <<a[1] \o r[1], r[2]>>
EntryOrder(e) == IF e = "le" THEN "le" ELSE "be"

IsPrefix2(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
IsSubseq(a, b) == LET RECURSIVE G(_, _)
                      G(x, y) == x = <<>> \/ (y # <<>> /\ IF Head(x) = Head(y) THEN G(Tail(x), Tail(y)) ELSE G(x, Tail(y)))
                  IN G(a, b)
NoEntries(v, w, at) == \E k \in 1..Len(v) : v[k] = at /\ SubSeq(v, 1, k - 1) \o SubSeq(v, k + 1, Len(v)) = w

-----------------------------------------------------------------------------
(* The properties                                                            *)
FieldsOfMain(i) == IF Main(i).kind = "struct" THEN Main(i).fields ELSE <<>>
MainFieldAttrs(i) == LET d == Main(i) fs == IF d.kind = "enum" THEN FlattenSeq([v \in 1..Len(d.variants) |-> d.variants[v].fields]) ELSE d.fields
                     IN [k \in 1..Len(fs) |-> fs[k].attrs]
SomeField(i, Test(_)) == \E k \in 1..Len(MainFieldAttrs(i)) : Test(MainFieldAttrs(i)[k])
OneField(i, Test(_)) == Cardinality({k \in 1..Len(MainFieldAttrs(i)) : Test(MainFieldAttrs(i)[k])}) = 1

P01(i) ==
  LET o == O(i, "", 0) n == Len(FieldsOfMain(i))
      c == TLCEval([k \in 0..n |-> O(i, "cut", k)])
  IN /\ WellTyped(i, o)
     /\ Main(i).kind = "struct" =>
          /\ o.res.r = "ok" =>                 \* the first k fields of the definition give the first k fields of the value
               /\ \A k \in 0..n : c[k].res.r = "ok" /\ IsPrefix2(c[k].res.v, o.res.v)
               /\ \A k \in 1..n : IsPrefix2(c[k-1].res.v, c[k].res.v) /\ (~Uses(i, Positional) => c[k-1].res.pos <= c[k].res.pos)
               /\ c[n].res.v = o.res.v
               /\ ~Has(Main(i).attrs, "PostExec") => c[n].res.pos = o.res.pos
          /\ \A k \in 0..n : c[k].res.r # "ok" => o.res = c[k].res /\ \A l \in k..n : c[l].res = c[k].res   \* and the first failing field is the failure
     /\ (o.res.r # "inc" /\ Streaming(i)) => Kind(OB(i, Case(i).input \o <<7, 255, 0>>, "", 0), o)          \* the remainder does not matter

P02(i) ==
  LET d == Main(i) o == O(i, "", 0) to == IF d.kind = "type" THEN "none" ELSE TypeOrder(d) IN
  /\ to \in {"be", "le"} /\ d.drv # "Nom" /\ ~Has(d.attrs, "BigEndian") /\ ~Has(d.attrs, "LittleEndian") /\ ~Has(d.attrs, "SetEndian") => Same(o, O(i, "drv2attr", 0))
  /\ to \in {"be", "le"} /\ d.drv = "Nom" => Same(o, O(i, "attr2drv", 0))
  /\ to \in {"be", "le"} /\ d.kind \in {"struct", "enum"} /\ ~Uses(i, {"SetEndian"}) => Same(o, O(i, "push", 0)) /\ Same(o, O(i, "setconst", 0))
  /\ d.kind = "struct" /\ ConstSets(d) /\ Len(Keep(d.attrs, LAMBDA a : a.a = "SetEndian")) <= 1 => Same(o, O(i, "unset", 0))
  /\ to = "un" => Same(OE(i, "", "be"), OE(i, "addbig", "le")) /\ Same(OE(i, "", "le"), OE(i, "addlittle", "be"))
  /\ to \in {"be", "le"} /\ d.kind = "fieldless" => Same(OE(i, "", "be"), OE(i, "", "le"))

P03(i) ==
  LET o == O(i, "", 0) d == Main(i) IN
  /\ WellTyped(i, o)
  /\ d.kind = "type" /\ ~Uses(i, {"t:def"}) /\ o.res.r = "ok" => Enc(d.t, o.res.v, Case(i).e) = <<SubSeq(Case(i).input, 1, o.res.pos), <<>>>>
  /\ d.kind = "type" /\ d.t.k \in PrimKinds =>
       IF Len(Case(i).input) >= Width(d.t.k) THEN o.res.r = "ok" ELSE o.res.r = "inc" /\ o.res.n = Width(d.t.k) - Len(Case(i).input)

P05(i) ==
  LET o == O(i, "", 0) c == O(i, "complete", 0)
      w == IF Has(Main(i).attrs, "Complete") THEN o ELSE c            \* with the attribute, and without
      n == IF Has(Main(i).attrs, "Complete") THEN c ELSE o
  IN Main(i).kind # "type" =>
     /\ n.res.r # "inc" => Same(w, n)
     /\ n.res.r = "inc" => /\ w.res.r \in {"inc", "err"}
                           /\ w.res.r = "err" => w.res.ch[Len(w.res.ch)][1] \in {"Complete", "Eof", "Count"}
                           /\ ~Uses(i, Positional \cup {"s:rd"}) => w.res.r = "err"
                           /\ w.res.r = "inc" => w.res = n.res
                           /\ IsPrefix2(n.log, w.log) /\ IsPrefix2(w.log, n.log)

P06(i) == LET o == O(i, "", 0) IN Same(o, O(i, "cuttail", 0)) /\ Same(o, O(i, "sorted", 0))

P07(i) ==
  LET HasC(at) == FirstParser(at) = "Count"
      OnlyC(at) == HasC(at) /\ Only([attrs |-> at], "Count")
      refs == {"op:vlen", "op:var", "op:bvar", "s:mv", "op:evar", "op:ilen", "s:mk", "s:built", "p:lg", "op:lg"} IN
  /\ WellTyped(i, O(i, "", 0))
  /\ SomeField(i, HasC) => Same(O(i, "count0", 0), O(i, "count0i", 0))
  /\ OneField(i, HasC) /\ OneField(i, OnlyC) /\ ~Uses(i, {"op:vlen", "s:mv", "s:built"}) /\ Main(i).kind = "struct" /\ ~Has(Main(i).attrs, "Complete") =>
       LET a == O(i, "count2", 0) b == O(i, "count2p", 0)       \* Count(2) on Vec<T> is T followed by T
       IN a.res.r = b.res.r /\ a.res.pos = b.res.pos /\ a.log = b.log /\ a.res.n = b.res.n /\ (a.res.r = "ok" => NoEntries(a.res.v, b.res.v, 2))

P08(i) ==
  LET HasC(at) == FirstParser(at) = "Cond"
      OnlyC(at) == HasC(at) /\ Only([attrs |-> at], "Cond")
      o == O(i, "", 0) t == O(i, "cond1", 0) f == O(i, "cond0", 0) IN
  /\ WellTyped(i, o)
  /\ SomeField(i, HasC) => f = O(i, "cond0i", 0)
  /\ OneField(i, HasC) /\ ~Uses(i, {"op:lg"}) => Same(o, t) \/ Same(o, f)
  /\ OneField(i, HasC) /\ OneField(i, OnlyC) /\ ~Uses(i, {"op:some", "op:var", "s:mv", "s:built"}) /\ Main(i).kind = "struct" =>
       LET a == O(i, "cond1o", 0) b == O(i, "cond1i", 0)
       IN a.res.r = b.res.r /\ a.res.pos = b.res.pos /\ a.log = b.log /\ a.res.n = b.res.n /\ (a.res.r = "ok" => NoEntries(a.res.v, b.res.v, 1))
  /\ ~Uses(i, {"SetEndian"}) => Same(o, O(i, "noorder", 0))

P09(i) ==
  LET o == O(i, "", 0) s == O(i, "skips", 0) IN
  /\ WellTyped(i, o)
  /\ ~Uses(i, {"s:win"}) => Same(o, O(i, "align1", 0))         \* a move leaves a window, a skip does not
  /\ ~Uses(i, {"s:built", "Complete", "s:win"}) => o.res.r = s.res.r /\ o.res.pos = s.res.pos /\ o.log = s.log /\ o.res.n = s.res.n /\ IsSubseq(o.res.v, s.res.v)

Relabel(o, k) == [o EXCEPT !.res.v = IF @ = <<>> THEN @ ELSE <<k>> \o Tail(@)]
P10(i) ==
  LET d == Main(i) o == O(i, "", 0) IN
  d.kind = "enum" /\ ~Uses(i, {"s:built"}) =>
    /\ WellTyped(i, o)
    /\ o.res.r = "ok" =>
         LET k == o.res.v[1] IN
         /\ Same(O(i, "only", k + 1), Relabel(o, 0))                                          \* the other variants have no influence
         /\ \A j \in 1..Len(d.variants) : j # k + 1 => Same(O(i, "without", j), Relabel(o, IF j < k + 1 THEN k - 1 ELSE k))
         /\ O(i, "without", k + 1).res.r = "ok" => O(i, "without", k + 1).res.v[1] >= k        \* first match
              \/ IsDefault(d.variants[k + 1]) \/ IsDefault((SubSeq(d.variants, 1, k) \o SubSeq(d.variants, k + 2, Len(d.variants)))[O(i, "without", k + 1).res.v[1] + 1])
    /\ LET a == O(i, "dfront", 0) b == O(i, "dback", 0) IN
         a.res.r = b.res.r /\ a.res.pos = b.res.pos /\ a.res.ch = b.res.ch /\ a.res.n = b.res.n /\ a.log = b.log
         /\ o.res.r = a.res.r /\ o.res.pos = a.res.pos /\ o.log = a.log
         /\ (o.res.r = "ok" => Tail(o.res.v) = Tail(a.res.v) /\ Tail(a.res.v) = Tail(b.res.v))
    /\ (\E j \in 1..Len(d.variants) : IsDefault(d.variants[j])) => ~(o.res.r = "err" /\ o.res.ch[1][1] = "Switch" /\ Len(o.log) = 0 /\ o.res.ch[1][2] = 0 /\ ~Uses(i, {"t:def"}))
    /\ (o.res.r = "err" /\ o.res.ch = <<<<"Switch", 0>>>> /\ ~Uses(i, {"t:def"})) =>
         LET c == O(i, "catch", 0) IN c.res.r # "err" \/ c.res.ch[1][1] # "Switch"

Pow(b, n) == IF n = 0 THEN 1 ELSE b * (IF n = 1 THEN 1 ELSE b)
P11(i) ==
  LET d == Main(i) o == O(i, "", 0) e == Case(i).e
      or == IF TypeOrder(d) = "un" THEN EntryOrder(e) ELSE TypeOrder(d)
      w == Width(d.repr)
      FromDisc(v) == IF or = "le" THEN Reverse(v.disc) ELSE v.disc
  IN d.kind = "fieldless" /\ ~Uses(i, {"PreExec", "PostExec", "Exact"}) =>
    /\ o.res.r = "ok" <=> Len(Case(i).input) >= w /\ \E k \in 1..Len(d.variants) : FromDisc(d.variants[k]) = SubSeq(Case(i).input, 1, w)
    /\ o.res.r = "ok" => o.res.pos = w /\ FromDisc(d.variants[o.res.v[1] + 1]) = SubSeq(Case(i).input, 1, w)
    /\ (Len(Case(i).input) >= w /\ o.res.r # "ok") => o.res.r = "err" /\ o.res.ch[1][1] = "Switch"
    /\ \A k \in 1..Len(d.variants) : OB(i, FromDisc(d.variants[k]), "", 0).res.v = <<k - 1>>

P12(i) ==
  LET o == O(i, "", 0)
      Rel(x) == /\ o.res.r = "ok" => x.res = o.res                              \* a check that passes is as if it was not there
                /\ x.res.r # "ok" => o.res.r # "ok"
                /\ (x.res.r = "ok" /\ o.res.r # "ok") => o.res.r = "err" /\ o.res.ch[1][1] = "Verify"
  IN Main(i).kind # "type" =>
    /\ Rel(O(i, "noverify", 0)) /\ Rel(O(i, "noerrif", 0)) /\ Rel(O(i, "noexact", 0))
    /\ ~Has(Main(i).attrs, "Exact") /\ ~Has(Main(i).attrs, "PostExec") /\ ~Has(Main(i).attrs, "Complete") /\ o.res.r = "ok" =>
         LET x == O(i, "exact", 0) IN IF o.res.pos = Len(Case(i).input) THEN Same(x, o)
                                     ELSE x.res.r = "err" /\ x.res.ch = <<<<"Verify", o.res.pos>>>>

RECURSIVE IdsOf(_)
IdsOf(log) == [k \in 1..Len(log) |-> log[k][1]]
P13(i) ==
  LET o == O(i, "", 0) n == O(i, "nolog", 0) IN
  /\ n.res = o.res /\ IsSubseq(n.log, o.log)
  /\ Len(Case(i).input) > 0 /\ Streaming(i) =>       \* what ran on less data is what runs first on more data
       IsPrefix2(IdsOf(OB(i, SubSeq(Case(i).input, 1, Len(Case(i).input) - 1), "", 0).log), IdsOf(o.log))

P14(i) == LET o == O(i, "", 0) n == O(i, "nodiag", 0) d == O(i, "diag", 0)
              \* with Complete, which of the two descriptions of an input that is too short is given (by the item that
              \* misses bytes, or by the attribute) depends on whether a function stands in between
              Same2(x) == Same(x, o) \/ (Uses(i, {"Complete"}) /\ Kind(x, o) /\ x.log = o.log)
          IN Same2(n) /\ n.dbg = <<>> /\ Same2(d) /\ (o.res.r = "ok" /\ Streaming(i) => d.dbg = <<>>) /\ IsSubseq(o.dbg, d.dbg)

AllFixed(i) == \A n \in DOMAIN Prog(i).defs : LET d == Prog(i).defs[n] IN d.kind # "type" /\ TypeOrder(d) # "un"
P15(i) ==
  /\ Main(i).kind # "type" => OE(i, "", "parse") = OE(i, "", "be")
  /\ AllFixed(i) => OE(i, "", "le") = OE(i, "", "be")

P16(i) == LET o == O(i, "", 0) IN WellTyped(i, o) /\ ErrInside(i, o) /\ o.res.r \in {"ok", "err", "fail", "inc"}

P18(i) == WellTyped(i, O(i, "", 0))

P19(i) ==
  LET a == Out(Run3(i, Case(i).input, "", 0, Case(i).e, "alloc"))
      c == Out(Run3(i, Case(i).input, "", 0, Case(i).e, "core"))
  IN /\ ~Uses(i, {"t:vec", "t:str"}) => (a.res.r = "ok" <=> c.res.r = "ok") /\ (a.res.r = "ok" => Same(a, c))
     /\ ~Uses(i, {"t:vec", "t:str", "t:arr"}) => a = c

-----------------------------------------------------------------------------
(* The client                                                                *)
VARIABLES c, k, out      \* case, bytes received so far, what was observed
vars == <<c, k, out>>
Idle == [res |-> OkR(0, <<>>), log |-> <<>>, dbg |-> <<>>]

(* the streaming protocol *)
Parse(n) == k' = n /\ out' = OB(c, SubSeq(Case(c).input, 1, n), "", 0) /\ UNCHANGED c
Deliver   == k < Len(Case(c).input) /\ k >= 0 /\ Parse(k + 1)
DeliverAsked == k >= 0 /\ out.res.r = "inc" /\ out.res.n > 0 /\ out.res.n < 1000 /\ k + out.res.n <= Len(Case(c).input) /\ Parse(k + out.res.n)
(* a verdict is never revised *)
Stable == [][(k >= 0 /\ out.res.r # "inc") => (out'.res.r = out.res.r /\ out'.res.pos = out.res.pos /\ out'.res.v = out.res.v /\ out'.res.ch = out.res.ch
              /\ IdsOf(out'.log) = IdsOf(out.log))]_vars
(* side effects only ever extend *)
LogGrows == [][k >= 0 => IsPrefix2(IdsOf(out.log), IdsOf(out'.log))]_vars
(* never asked for more than what is missing: with what was asked for, the verdict is at most just reached *)
NeverOverasked == [][(k >= 0 /\ k' > k + 1) => (out'.res.r # "ok" \/ OB(c, SubSeq(Case(c).input, 1, k' - 1), "", 0).res.r = "inc")]_vars
AsksSomething == (PROP = "C04" /\ k >= 0 /\ out.res.r = "inc") => out.res.n >= 1

Holds(i) ==
  CASE PROP = "C01" -> P01(i) [] PROP = "C02" -> P02(i) [] PROP = "C03" -> P03(i) [] PROP = "C05" -> P05(i) [] PROP = "C06" -> P06(i)
    [] PROP = "C07" -> P07(i) [] PROP = "C08" -> P08(i) [] PROP = "C09" -> P09(i) [] PROP = "C10" -> P10(i) [] PROP = "C11" -> P11(i)
    [] PROP = "C12" -> P12(i) [] PROP = "C13" -> P13(i) [] PROP = "C14" -> P14(i) [] PROP = "C15" -> P15(i) [] PROP = "C16" -> P16(i)
    [] PROP = "C18" -> P18(i) [] PROP = "C19" -> P19(i) [] OTHER -> TRUE
Compare == k = -1 /\ k' = -2 /\ UNCHANGED <<c, out>>
           /\ Assert(Holds(c), <<"PROPERTY", PROP, "fails on the specification for case", c>>)
           /\ PrintT(<<"HOLDS", c>>)

Init == /\ c \in 1..NC
        /\ \/ PROP # "C04" /\ k = -1 /\ out = Idle
           \/ PROP = "C04" /\ k = 0 /\ Streaming(c) /\ out = OB(c, <<>>, "", 0)
Next == Compare \/ Deliver \/ DeliverAsked
Spec == Init /\ [][Next]_vars
=============================================================================
