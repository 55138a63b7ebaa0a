------------------------------- MODULE Conform -------------------------------
(***************************************************************************)
(* Trace validation: every recorded execution of the real code must be a   *)
(* behaviour of NomDerive.                                                 *)
(*                                                                         *)
(* Corpus: JSON  [progs |-> <<program>>, cases |-> <<case>>]               *)
(*   program [defs |-> name -> definition, main |-> name, err, cfg, ...]   *)
(*   case    [p |-> program index, e |-> entry point, args, input]         *)
(* Trace:  JSON sequence, one recorded execution per case:                 *)
(*   [log |-> side effects in order, dbg |-> diagnostics in order,         *)
(*    r, pos, v, n, ch]                                                    *)
(* Each case is one initial state; the machine then takes its own named    *)
(* actions, and every side effect it predicts must be the next recorded    *)
(* one; the end of the parse must agree with the recorded outcome.  The    *)
(* verdict of each case is printed, and every case must get one.           *)
(***************************************************************************)
EXTENDS NomDerive, Json, IOUtils

Corpus == JsonDeserialize(IOEnv.CORPUS)
Trace  == JsonDeserialize(IOEnv.TRACE)
NC == Len(Corpus.cases)

CaseOf(m) == Corpus.cases[m.cid]
ErrOf(m) == Corpus.progs[CaseOf(m).p].err
InputImpl(m) == CaseOf(m).input
DefOfImpl(m, n) == Corpus.progs[CaseOf(m).p].defs[n]

VARIABLES m, vd

StartCase(i) ==
  LET c == Corpus.cases[i]
      p == Corpus.progs[c.p]
  IN Start(i, p.cfg, p.defs[p.main], c.e, c.args, Len(c.input))

Init == /\ m \in {StartCase(i) : i \in 1..NC}
        /\ vd = "run"

Obs == Trace[m.cid]
(* the side effect just predicted is the next one recorded *)
LogOk(a, b) == \/ Len(a.log) = Len(b.log)
               \/ /\ Len(b.log) <= Len(Trace[a.cid].log)
                  /\ b.log[Len(b.log)] = Trace[a.cid].log[Len(b.log)]
(* where and why it failed; what is appended on the way out is not a guarantee *)
ChainOk(ch, och) == Len(ch) > 0 /\ Len(och) > 0 /\ ch[1] = och[1]
EndOk == LET r == m.res
         IN /\ Len(m.log) = Len(Obs.log)
            /\ m.dbg = Obs.dbg
            /\ r.r = Obs.r
            /\ r.r = "ok" => r.pos = Obs.pos /\ r.v = Obs.v
            /\ r.r = "inc" => r.n = Obs.n
            /\ r.r \in {"err", "fail"} => \/ ErrOf(m) = "unit"     \* `()` keeps nothing
                                          \/ ChainOk(r.ch, Obs.ch)

Say(what) == PrintT(<<what, m.cid>>)
SayMore(what, n) == PrintT(<<what, m.cid, ToJson([spec |-> [n.res EXCEPT !.v = @], log |-> n.log, dbg |-> n.dbg])>>)

Next == /\ vd = "run"
        /\ \/ /\ m.mode # "done"
              /\ StepRel(m, m')
              /\ vd' = IF LogOk(m, m') THEN "run" ELSE "bad"
              /\ vd' = "bad" => SayMore("BAD", m')
           \/ /\ m.mode = "done"
              /\ vd' = IF EndOk THEN "good" ELSE "bad"
              /\ IF vd' = "good" THEN Say("GOOD") ELSE SayMore("BAD", m)
              /\ UNCHANGED m
Spec == Init /\ [][Next]_<<m, vd>>

(* invariants of the machine, evaluated at every step of every execution *)
Inside == /\ m.mode \in {"eval", "obj", "ret", "done"}
          /\ 0 <= m.pos /\ m.pos <= m.lim /\ m.lim <= Len(CaseOf(m).input)
          /\ \A i \in 1..Len(m.stk) : m.stk[i].f = "obj" =>
               /\ m.stk[i].st <= m.stk[i].pos /\ m.stk[i].pos <= m.stk[i].lim
          /\ m.mode \in {"ret", "done"} /\ m.res.r = "ok" => m.res.pos <= Len(CaseOf(m).input)
=============================================================================
