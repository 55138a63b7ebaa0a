------------------------------ MODULE FrontEnd ------------------------------
(***************************************************************************)
(* The derive macro: from a type definition (attributes in written order)  *)
(* to a parser program.                                                    *)
(*                                                                         *)
(*   Accept(d)      does the derive accept the definition                  *)
(*   Program(d, e)  the operations of the function generated for entry     *)
(*                  point e ("be" or "le"; "parse" is "be")                *)
(*                                                                         *)
(* Anchors: meta/attr.rs (levels, arguments), endian.rs (resolution),      *)
(* structs.rs get_parser / get_pre_post_exec / parse_fields, enums.rs      *)
(* parse_variant, parsertree.rs with_endianness, gen/*.rs bodies.          *)
(***************************************************************************)
EXTENDS Values

Has(attrs, nm) == \E i \in 1..Len(attrs) : attrs[i].a = nm
Get(attrs, nm) == attrs[CHOOSE i \in 1..Len(attrs) : attrs[i].a = nm
                          /\ \A j \in 1..(i-1) : attrs[j].a # nm]
Sel(s, Test(_)) == SelectSeq(s, Test)

TopLevel == {"DebugDerive","Complete","Debug","ExtraArgs","GenericErrors","InputName",
             "LittleEndian","BigEndian","SetEndian","PreExec","PostExec","Exact","Selector"}
FieldOnly == {"AlignAfter","AlignBefore","Cond","Count","ErrorIf","Ignore","Into","LengthCount",
              "Map","Move","MoveAbs","Parse","SkipAfter","SkipBefore","Tag","Take","Value","Verify"}
NotField  == {"DebugDerive","Exact","ExtraArgs","GenericErrors","InputName"}
AllAttrs  == TopLevel \cup FieldOnly
TakesArg  == {"AlignAfter","AlignBefore","Cond","Count","ErrorIf","ExtraArgs","InputName",
              "LengthCount","Map","Move","MoveAbs","Parse","PostExec","PreExec","Selector",
              "SetEndian","SkipAfter","SkipBefore","Tag","Take","Value","Verify"}
PreAttrs  == {"PreExec","AlignBefore","SkipBefore","Move","MoveAbs","ErrorIf","SetEndian"}
PostAttrs == {"PostExec","AlignAfter","SkipAfter","Exact"}

(***************************************************************************)
(* Byte order.  "un" = unspecified: the entry point decides.               *)
(***************************************************************************)
TypeOrder(d) ==
  IF Has(d.attrs, "BigEndian") THEN "be"
  ELSE IF Has(d.attrs, "LittleEndian") THEN "le"
  ELSE IF Has(d.attrs, "SetEndian") THEN "set"
  ELSE IF d.drv = "NomBE" THEN "be" ELSE IF d.drv = "NomLE" THEN "le" ELSE "un"
FieldOrder(attrs, order) ==
  IF Has(attrs, "BigEndian") THEN "be"
  ELSE IF Has(attrs, "LittleEndian") THEN "le"
  ELSE IF Has(attrs, "SetEndian") THEN "set" ELSE order
(* the order in force for the fields after this one *)
After(attrs, order) == IF Has(attrs, "SetEndian") THEN "set" ELSE order

(***************************************************************************)
(* Parser expressions                                                      *)
(***************************************************************************)
(* nom's `complete` also tells the parser it wraps that no more data will  *)
(* come.  Parsers made of functions ignore that; combinators pass it on,   *)
(* and length_data then reports Eof where its data starts instead of       *)
(* asking for more.                                                        *)
RECURSIVE PfComplete(_)
PfComplete(f) ==
  CASE f.p = "ldata" -> [p |-> "ldata", w |-> f.w, e |-> f.e, eof |-> TRUE]
    [] f.p \in {"sub", "cond"} -> [f EXCEPT !.f = PfComplete(@)]
    [] OTHER -> f
RECURSIVE InComplete(_)
InComplete(x) ==
  CASE x.x \in {"complete", "cond", "count", "into", "map", "verify"} -> [x EXCEPT !.s = InComplete(@)]
    [] x.x = "lcount" -> [x EXCEPT !.s = InComplete(@), !.f = PfComplete(@)]
    [] x.x = "pf" -> [x EXCEPT !.f = PfComplete(@)]
    [] OTHER -> x
Completed(x) == [x |-> "complete", s |-> InComplete(x)]

TypeParser(ty, attrs, order, entry) ==
  IF ty.k = "phantom" THEN [x |-> "const", v |-> <<>>]
  ELSE LET o == FieldOrder(attrs, order) IN
    IF o = "set" THEN [x |-> "tyset", t |-> ty]
    ELSE [x |-> "ty", t |-> ty, e |-> IF o = "un" THEN entry ELSE o]

RECURSIVE FieldParser(_, _, _, _, _, _)
FieldParser(nm, ty, rest, attrs, order, entry) ==
  IF rest = <<>> THEN TypeParser(ty, attrs, order, entry)
  ELSE LET a == Head(rest)
           Sub(t) == FieldParser(nm, t, Tail(rest), attrs, order, entry)
       IN CASE a.a = "Tag"    -> [x |-> "tag", b |-> a.b]
            [] a.a = "Take"   -> [x |-> "take", n |-> a.e]
            [] a.a = "Value"  -> [x |-> "value", n |-> a.e, t |-> ty]
            [] a.a = "Parse"  -> [x |-> "pf", f |-> a.f]
            [] a.a = "Ignore" -> [x |-> "default", t |-> ty]
            [] a.a = "Complete" -> Completed(Sub(ty))
            [] a.a = "Debug"  -> [x |-> "dbg", nm |-> nm, s |-> Sub(ty)]
            [] a.a = "Cond"   -> [x |-> "cond", n |-> a.e, s |-> Sub(ty.t)]
            [] a.a = "Count"  -> [x |-> "count", n |-> a.e, s |-> Sub(ty.t)]
            [] a.a = "Into"   -> [x |-> "into", m |-> a.m, s |-> Sub(ty)]
            [] a.a = "LengthCount" -> [x |-> "lcount", f |-> a.f, s |-> Sub(ty.t)]
            [] a.a = "Map"    -> [x |-> "map", m |-> a.m, s |-> Sub(ty)]
            [] a.a = "Verify" -> [x |-> "verify", n |-> a.e, t |-> ty, s |-> Sub(ty)]
            [] OTHER -> Sub(ty)

(***************************************************************************)
(* Operations of the generated function                                    *)
(***************************************************************************)
PreOps(attrs) == [i \in 1..Len(Sel(attrs, LAMBDA a : a.a \in PreAttrs)) |->
                    [o |-> "attr", a |-> Sel(attrs, LAMBDA a : a.a \in PreAttrs)[i]]]
PostOps(attrs) == [i \in 1..Len(Sel(attrs, LAMBDA a : a.a \in PostAttrs)) |->
                    [o |-> "attr", a |-> Sel(attrs, LAMBDA a : a.a \in PostAttrs)[i]]]

Wrap(d, nm, p) ==
  LET q == IF Has(d.attrs, "Complete") THEN Completed(p) ELSE p
  IN IF Has(d.attrs, "Debug") THEN [x |-> "dbg", nm |-> nm, s |-> q] ELSE q

RECURSIVE FieldOps(_, _, _, _, _)
FieldOps(d, fs, i, order, entry) ==
  IF i > Len(fs) THEN <<>>
  ELSE LET f == fs[i]
           p == FieldParser(f.n, f.t, f.attrs, f.attrs, order, entry)
       IN PreOps(f.attrs)
          \o <<[o |-> "parse", n |-> f.n, t |-> f.t, p |-> Wrap(d, f.n, p)]>>
          \o PostOps(f.attrs)
          \o FieldOps(d, fs, i + 1, After(f.attrs, order), entry)

Names(fs) == [i \in 1..Len(fs) |-> fs[i].n]

VariantOps(d, v, entry) ==
  IF v.shape = "unit"
  THEN LET p == IF Has(v.attrs, "Parse")
                THEN LET q == [x |-> "pf", f |-> Get(v.attrs, "Parse").f]
                     IN IF Has(d.attrs, "Complete") THEN Completed(q) ELSE q
                ELSE [x |-> "const", v |-> <<>>]
       IN PreOps(v.attrs) \o <<[o |-> "parse", n |-> "_", t |-> [k |-> "phantom"], p |-> p]>>
          \o PostOps(v.attrs)
  ELSE FieldOps(d, v.fields, 1, TypeOrder(d), entry)

(* arms in matching order: declaration order, default arms last *)
IsDefault(v) == v.pat.p = "wild" /\ ~v.hasguard
ArmOrder(d) ==
  LET idx == [i \in 1..Len(d.variants) |-> i]
  IN SelectSeq(idx, LAMBDA i : ~IsDefault(d.variants[i]))
     \o SelectSeq(idx, LAMBDA i : IsDefault(d.variants[i]))

Body(d, entry) ==
  CASE d.kind = "struct" ->
         FieldOps(d, d.fields, 1, TypeOrder(d), entry)
         \o <<[o |-> "build", pre |-> <<>>, ns |-> Names(d.fields), as |-> "struct_def"]>>
    [] d.kind = "enum" ->
         <<[o |-> "match", vs |-> d.variants, arms |-> ArmOrder(d)]>>
    [] d.kind = "fieldless" ->
         <<[o |-> "disc",
            p |-> LET o == TypeOrder(d)
                      q == [x |-> "ty", t |-> [k |-> d.repr], e |-> IF o = "un" THEN entry ELSE o]
                  IN IF Has(d.attrs, "Complete") THEN Completed(q) ELSE q]>>

Program(d, entry) == PreOps(d.attrs) \o Body(d, entry) \o PostOps(d.attrs)

Args(d) == (IF Has(d.attrs, "Selector") THEN <<[n |-> "selector", t |-> Get(d.attrs, "Selector").t]>>
            ELSE <<>>)
           \o (IF Has(d.attrs, "ExtraArgs") THEN Get(d.attrs, "ExtraArgs").ps ELSE <<>>)
Inherent(d) == Has(d.attrs, "Selector") \/ Has(d.attrs, "ExtraArgs")
=============================================================================
