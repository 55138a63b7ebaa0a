-------------------------------- MODULE Accept --------------------------------
(***************************************************************************)
(* Which definitions the derive accepts.                                   *)
(*                                                                         *)
(* A sketch of a definition: a skeleton (kind of item, with its variants   *)
(* and representation), the derive used, and a list of attributes at one   *)
(* place of it.  The specification gives the verdict; TLC enumerates every *)
(* sketch within the bounds below, and each one is written out and given   *)
(* to the compiler.                                                        *)
(*                                                                         *)
(*   attribute  [a |-> name, f |-> form]                                   *)
(*     forms: "list" X(arg)   "str" X = "arg"   "path" X   "num" X = 1     *)
(*            "bad" X = "text that is not an expression"                   *)
(*            "void" X()   "blank" X = ""                                  *)
(*   busy       whether all the other places hold an attribute too         *)
(*   place      [slot |-> "top" | "field" | "variant" | "none", pos]       *)
(*                                                                         *)
(* Anchors: meta/attr.rs, meta/mod.rs, endian.rs, gen.rs, enums.rs,        *)
(* structs.rs get_parser, gen/fieldless_enums.rs                           *)
(***************************************************************************)
EXTENDS FrontEnd, TLC, Json

Canon(n) == CASE n = "If" -> "Cond" [] n = "Default" -> "Ignore" [] OTHER -> n
Known(n) == Canon(n) \in AllAttrs
Bogus == {"Foo", "bigendian", "Big", "Counts", "nom"}
(* not a list of attributes at all *)
RawAttrs == {"_bare", "_eq", "_lit", "_path"}
(* attributes of others: never looked at *)
Noise == {"_doc", "_allow", "_empty"}

Structs == {"named", "tuple", "unit", "named5", "tuple5"}
SelEnums == {"senum", "senumt", "fenum_sel"}
Fieldless == {"fenum", "fenum_i", "fenum_norepr", "fenum_usize", "fenum_c"}
(* items no parser can be made for *)
Broken == {"union", "enum_nosel", "enumt_nosel", "enum_nosel_repr", "fenum_norepr", "fenum_usize", "fenum_c",
           "mixed1", "mixed2", "mixed3", "mixedt1", "mixedt2", "mixedt3", "mixed1_repr", "mixed2_repr", "mixed3_repr", "mixedt1_repr", "mixedt2_repr", "mixedt3_repr",
           "senum_novsel1", "senum_novsel2", "senum_novsel3", "senumt_novsel1"}
Skeletons == Structs \cup SelEnums \cup Fieldless \cup Broken

Endians == {"BigEndian", "LittleEndian", "SetEndian"}
FormOk(at) ==
  LET n == Canon(at.a) IN
  IF n = "ExtraArgs" THEN at.f = "list"
  ELSE IF n \in TakesArg THEN at.f \in {"list", "str"}
  ELSE TRUE
LevelOk(slot, n) == IF slot = "top" THEN n \in TopLevel ELSE n \notin NotField

AttrOk(d, at) ==
  IF at.a \in Noise THEN TRUE
  ELSE IF at.a \in RawAttrs THEN FALSE
  ELSE Known(at.a) /\ LevelOk(d.slot, Canon(at.a)) /\ FormOk(at)

NamesOf(d) == {Canon(d.attrs[i].a) : i \in 1..Len(d.attrs)}
EndiansOf(d) == NamesOf(d) \cap Endians
DerivedOrder(d) == CASE d.drv = "NomBE" -> {"BigEndian"} [] d.drv = "NomLE" -> {"LittleEndian"} [] OTHER -> {}
NamedFields(d) == d.sk \in {"named", "named5", "senum"}

(* one byte order at most for the type, the derive included *)
TopOk(d) ==
  /\ Cardinality(EndiansOf(d) \cup DerivedOrder(d)) <= 1
  /\ "Debug" \in NamesOf(d) => d.sk \notin {"tuple", "tuple5", "senumt"}
  /\ d.sk \in Fieldless => NamesOf(d) \cap {"ExtraArgs", "SetEndian"} = {}

(* the attributes of a field are read until one gives the parser *)
RECURSIVE Walk(_, _, _)
Walk(d, i, ty) ==
  IF i > Len(d.attrs) THEN Cardinality(EndiansOf(d)) <= 1
  ELSE LET n == Canon(d.attrs[i].a) IN
    CASE n \in {"Tag", "Take", "Value", "Parse", "Ignore"} -> TRUE
      [] n = "Cond" -> ty = "opt" /\ Walk(d, i + 1, "u8")
      [] n \in {"Count", "LengthCount"} -> ty = "vec" /\ Walk(d, i + 1, "u8")
      [] n \in {"Debug", "Verify"} -> NamedFields(d) /\ Walk(d, i + 1, ty)
      [] OTHER -> Walk(d, i + 1, ty)

(* the verdict *)
AcceptSketch(d) ==
  /\ d.sk \notin Broken
  /\ \A i \in 1..Len(d.attrs) : AttrOk(d, d.attrs[i])
  /\ d.slot = "top" => TopOk(d)
  /\ d.slot = "field" => Walk(d, 1, d.ty)
  (* no other place has a say on the derive's byte order *)
  /\ d.slot # "top" => Cardinality(DerivedOrder(d)) <= 1

(***************************************************************************)
(* The sketches                                                            *)
(***************************************************************************)
Plain(sk) == [sk |-> sk, drv |-> "Nom", slot |-> "none", pos |-> 1, split |-> FALSE, attrs |-> <<>>, ty |-> "u8", imp |-> "min", busy |-> FALSE]
(* the places of a skeleton that can hold attributes *)
Places(sk) ==
  {<<"top", 1>>}
  \cup (IF sk \in {"named", "tuple", "senum", "senumt", "named5", "tuple5"} THEN {<<"field", 1>>, <<"field", 2>>} ELSE {})
  \cup (IF sk \in {"named5", "tuple5"} THEN {<<"field", 3>>, <<"field", 4>>, <<"field", 5>>} ELSE {})
  \cup (IF sk \in SelEnums \cup Fieldless THEN {<<"variant", 1>>, <<"variant", 2>>, <<"variant", 3>>} ELSE {})
At(sk, pl, as, ty) == [Plain(sk) EXCEPT !.slot = pl[1], !.pos = pl[2], !.attrs = as, !.ty = ty]

(* a type the attribute can be used on, so that the generated code compiles too *)
GoodTy(n) == CASE n = "Cond" -> "opt" [] n \in {"Count", "LengthCount"} -> "vec" [] n \in {"Tag", "Take"} -> "slice" [] OTHER -> "u8"
FormsOf(n) == IF Canon(n) \in TakesArg THEN {"list", "str", "path", "num", "bad", "void", "blank"} ELSE {"path"}
AllNames == AllAttrs \cup {"If", "Default"}

(* attributes whose presence at a place means nothing, or what the definition says about them is not settled *)
Unsettled(d) ==
  \/ d.slot = "field" /\ "Selector" \in NamesOf(d)
  \/ d.slot = "top" /\ "Selector" \in NamesOf(d) /\ AcceptSketch(d)
  \/ d.slot = "variant" /\ AcceptSketch(d) /\ d.attrs # <<>> /\ NamesOf(d) \cap Noise = {}
     /\ ~(d.sk \in {"senum", "senumt"} /\ d.pos = 3 /\ NamesOf(d) \subseteq {"Parse", "PreExec", "PostExec", "SkipBefore", "SkipAfter", "AlignBefore", "AlignAfter", "Move", "MoveAbs", "ErrorIf"})
  \/ d.sk = "unit" /\ d.slot = "field"
  (* a parser function says its own byte order: orders given before it are not looked at *)
  \/ d.slot = "field" /\ Cardinality(EndiansOf(d)) > 1 /\ AcceptSketch(d)

One == {At(sk, pl, <<[a |-> n, f |-> f]>>, GoodTy(Canon(n))) :
          sk \in {"named", "tuple", "unit", "senum", "senumt", "fenum", "fenum_sel"},
          pl \in {<<"top", 1>>, <<"field", 1>>, <<"field", 2>>, <<"variant", 1>>, <<"variant", 2>>, <<"variant", 3>>},
          n \in AllNames \cup Bogus \cup RawAttrs \cup Noise,
          f \in {"list", "str", "path", "num", "bad", "void", "blank"}}
OneOk == {d \in One : /\ <<d.slot, d.pos>> \in Places(d.sk)
                      /\ d.attrs[1].f \in FormsOf(d.attrs[1].a)
                      /\ d.attrs[1].a \in Bogus => d.attrs[1].f = "path"}

(* one that is refused, next to one that is not, on the same line or another *)
Neighbours(slot) ==
  IF slot = "top" THEN {[a |-> n, f |-> "path"] : n \in {"Complete", "BigEndian", "DebugDerive", "GenericErrors", "Exact"}}
                       \cup {[a |-> n, f |-> "list"] : n \in {"InputName", "PreExec", "PostExec"}}
  ELSE {[a |-> n, f |-> IF n \in TakesArg THEN "list" ELSE "path"] : n \in AllAttrs \ (NotField \cup {"Selector"})}
       \cup {[a |-> n, f |-> "str"] : n \in {"Parse", "ErrorIf", "Value", "Tag"}}
Wrong(slot) == {[a |-> "Foo", f |-> "path"], [a |-> "_lit", f |-> "path"]}
  \cup (IF slot = "top" THEN {[a |-> "Count", f |-> "list"], [a |-> "Parse", f |-> "str"], [a |-> "PreExec", f |-> "path"], [a |-> "PostExec", f |-> "void"], [a |-> "Ignore", f |-> "path"]}
        ELSE {[a |-> "Exact", f |-> "path"], [a |-> "ExtraArgs", f |-> "list"], [a |-> "InputName", f |-> "list"], [a |-> "GenericErrors", f |-> "path"], [a |-> "SkipAfter", f |-> "path"], [a |-> "PreExec", f |-> "void"], [a |-> "ErrorIf", f |-> "blank"], [a |-> "Map", f |-> "num"]})
AllPlaces == {<<"top", 1>>} \cup {<<"field", j>> : j \in 1..5} \cup {<<"variant", j>> : j \in 1..3}
TwoWrong ==
  UNION {{[At(x[1], x[2], IF o THEN <<w, n>> ELSE <<n, w>>, GoodTy(n.a)) EXCEPT !.split = s] :
            w \in Wrong(x[2][1]), n \in Neighbours(x[2][1]), o \in BOOLEAN, s \in BOOLEAN}
         : x \in {y \in {"named", "tuple", "senum", "senumt", "fenum"} \X AllPlaces : y[2] \in Places(y[1])}}
(* in the middle of others, and on any of several fields, the other places being free or not *)
Amid ==
  UNION {UNION {{[At(x[1], x[2], l, "u8") EXCEPT !.busy = u] :
            l \in {<<w>>, <<[a |-> "ErrorIf", f |-> "list"], w, [a |-> "SkipBefore", f |-> "list"]>>, <<[a |-> "Parse", f |-> "list"], w, [a |-> "PostExec", f |-> "list"]>>}}
               : w \in Wrong(x[2][1]), u \in BOOLEAN}
         : x \in {y \in {"named", "tuple", "senum", "senumt", "fenum", "fenum_sel", "named5", "tuple5"} \X (AllPlaces \ {<<"top", 1>>}) : y[2] \in Places(y[1])}}
Busy == {[d EXCEPT !.busy = TRUE] : d \in {e \in OneOk : e.sk \in {"named", "senum", "fenum", "fenum_sel"}}}
Five == {d \in {At(sk, <<"field", j>>, <<[a |-> n, f |-> f]>>, GoodTy(Canon(n))) : sk \in {"named5", "tuple5"}, j \in 1..5, n \in AllAttrs \cup Bogus, f \in {"list", "str", "path", "void"}} :
            /\ d.attrs[1].f \in FormsOf(d.attrs[1].a)
            /\ d.attrs[1].a \in Bogus => d.attrs[1].f = "path"}

(* byte orders: every pair, every derive; also apart, with another attribute between them *)
EndianLists ==
  LET E(n) == [a |-> n, f |-> IF n = "SetEndian" THEN "list" ELSE "path"]
      N == [a |-> "PreExec", f |-> "list"]
  IN {<<E(n)>> : n \in Endians}
     \cup {<<E(x), E(y)>> : x \in Endians, y \in Endians}
     \cup {<<E(x), N, E(y)>> : x \in Endians, y \in Endians}
     \cup {<<E(x), E(y), E(z)>> : x \in Endians, y \in Endians, z \in Endians}
Orders == {[At(sk, pl, l, t) EXCEPT !.drv = v, !.split = s] :
             sk \in {"named", "tuple", "unit", "senum", "senumt", "fenum"}, pl \in {<<"top", 1>>, <<"field", 1>>, <<"field", 2>>},
             l \in EndianLists, v \in {"Nom", "NomBE", "NomLE"}, s \in BOOLEAN, t \in {"u16"}}
OrdersOk == {d \in Orders : <<d.slot, d.pos>> \in Places(d.sk)}

(* container attributes on other types; the same below another attribute *)
Types == {At(sk, <<"field", p>>, as, t) :
            sk \in {"named", "senum", "tuple", "senumt"}, p \in {1, 2}, t \in {"u8", "opt", "vec", "slice"},
            as \in {<<[a |-> n, f |-> "list"]>> : n \in {"Cond", "If", "Count", "LengthCount"}}
                   \cup {<<[a |-> "Complete", f |-> "path"], [a |-> n, f |-> "str"]>> : n \in {"Cond", "Count", "LengthCount"}}
                   \cup {<<[a |-> "Verify", f |-> "list"], [a |-> n, f |-> "list"]>> : n \in {"Cond", "Count"}}
                   \cup {<<[a |-> "Value", f |-> "list"], [a |-> n, f |-> "list"]>> : n \in {"Cond", "Count"}}
                   \cup {<<[a |-> x, f |-> "list"], [a |-> y, f |-> "list"]>> : x \in {"Cond", "Count", "LengthCount"}, y \in {"Cond", "Count", "LengthCount"}}}
(* what the generated code needs to compile is the definition's business when the derive has nothing to say *)
TypesOk == {d \in Types : ~AcceptSketch(d) \/ (d.ty = GoodTy(Canon(d.attrs[1].a)) /\ Len(d.attrs) = 1)
                                           \/ (Canon(d.attrs[1].a) = "Complete" /\ d.ty = GoodTy(Canon(d.attrs[2].a)))}

Bare == {[Plain(sk) EXCEPT !.drv = v, !.imp = m] : sk \in Skeletons, v \in {"Nom", "NomBE", "NomLE"}, m \in {"min", "glob"}}

Sketches == {d \in OneOk \cup TwoWrong \cup Amid \cup Busy \cup Five \cup OrdersOk \cup TypesOk \cup Bare : ~Unsettled(d)}

(***************************************************************************)
(* One behaviour per sketch: it is shown to the derive, which decides.     *)
(***************************************************************************)
VARIABLES d, verdict
Init == d \in Sketches /\ verdict = "?"
Decide == /\ verdict = "?"
          /\ verdict' = IF AcceptSketch(d) THEN "accept" ELSE "reject"
          /\ PrintT("SKETCH " \o ToJson([d |-> d, v |-> verdict']))
          /\ UNCHANGED d
Next == Decide
Spec == Init /\ [][Next]_<<d, verdict>>

(* sanity of the table: what the property names is refused wherever it is *)
Sound ==
  verdict = "accept" =>
    /\ d.sk \notin Broken
    /\ \A i \in 1..Len(d.attrs) : d.attrs[i].a \notin Bogus \cup RawAttrs
    /\ \A i \in 1..Len(d.attrs) : Canon(d.attrs[i].a) \in TakesArg => d.attrs[i].f \in {"list", "str"}
    /\ d.slot \in {"top", "field"} => Cardinality(EndiansOf(d)) <= 1

(* the verdict is a property of what is written, not of how: *)
Structural == {"Cond", "Count", "LengthCount", "Tag", "Take", "Value", "Parse", "Ignore"}
Free(x) == NamesOf(x) \cap Structural = {}
Without(x, j) == [x EXCEPT !.attrs = SubSeq(@, 1, j - 1) \o SubSeq(@, j + 1, Len(@))]
(* both syntaxes, one list or several, in any order; and taking an attribute away never makes a definition wrong *)
SyntaxFree ==
  verdict # "?" =>
    LET v == AcceptSketch(d) IN
    /\ AcceptSketch([d EXCEPT !.split = ~@]) = v
    /\ AcceptSketch([d EXCEPT !.imp = "glob"]) = v
    /\ AcceptSketch([d EXCEPT !.busy = ~@]) = v
    /\ Free(d) => AcceptSketch([d EXCEPT !.attrs = [j \in 1..Len(@) |-> @[Len(@) + 1 - j]]]) = v
    /\ (\A j \in 1..Len(d.attrs) : Canon(d.attrs[j].a) # "ExtraArgs") =>
         AcceptSketch([d EXCEPT !.attrs = [j \in 1..Len(@) |-> [@[j] EXCEPT !.f = CASE @ = "list" -> "str" [] @ = "str" -> "list" [] OTHER -> @]]]) = v
    /\ v => \A j \in 1..Len(d.attrs) : Canon(d.attrs[j].a) \notin Structural => AcceptSketch(Without(d, j))
(* byte orders: on a type and on a field independently; a derive with an order accepts only that order *)
OrdersAlone ==
  (verdict = "accept" /\ d.slot = "top" /\ d.drv # "Nom") => EndiansOf(d) \subseteq DerivedOrder(d)
=============================================================================
