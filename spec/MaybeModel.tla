----------------------------- MODULE MaybeModel -----------------------------
(* Runs both worlds in lockstep on every program up to a length and checks the relation between   *)
(* them; writes the programs as scenarios for the real code.                                       *)
EXTENDS Maybe, TLC, IOUtils, Json
CONSTANTS MaxLen, Values, MaxRegs, EmitLen
Instrs ==
  [o : {"just", "mjust"}, r : {1}, q : {0}, k : Values]
    \cup [o : {"try", "mtry"}, r : {1}, q : {0, 2}, k : Values]
    \cup [o : {"map", "andthen", "asref", "asmut", "snag"}, r : 1 .. MaxRegs, q : {0}, k : {4}]
    \cup [o : {"zip"}, r : 1 .. MaxRegs, q : 1 .. MaxRegs, k : {2}]
    \cup [o : {"clone", "into", "drop", "tuple"}, r : 1 .. MaxRegs, q : {0}, k : {0}]
    \cup [o : {"array"}, r : 1 .. MaxRegs + 1, q : {0}, k : {0}]

VARIABLES prog, a, e, closures   \* closures: how many ran in the empty world, ever
vars == <<prog, a, e, closures>>
Init == prog = <<>> /\ a = Start /\ e = Start /\ closures = 0
Next == \E st \in Instrs :
  /\ Len(prog) < MaxLen /\ a.err = -1 /\ Enabled(a.n, st) /\ (a.n < MaxRegs \/ st.o \in {"map", "andthen", "asmut", "zip", "into", "tuple", "array", "drop"})
  /\ prog' = Append(prog, st)
  /\ a' = Step("always", a, st)
  /\ e' = Step("empty", e, st)
  /\ closures' = closures + Len(e'.log)
\* Nothing is evaluated, nothing is stored and nothing fails when witnesses are absent ...
EmptyIsInert == e.regs = <<>> /\ e.log = <<>> /\ e.live = 0 /\ e.err = -1 /\ closures = 0
\* ... and the shape of the computation is the same until an error surfaces.
SameShape == a.err = -1 => a.n = e.n
Conserved == a.live = a.n /\ Len(a.regs) = a.n
FirstError == a.err # -1 => a.log # <<>> /\ a.log[Len(a.log)].f = "try"

EmitPrograms ==
  LET RECURSIVE Ext(_)
      Ext(l) == IF l = 0 THEN {[p |-> <<>>, n |-> 0]}
                ELSE LET shorter == Ext(l - 1)
                     IN shorter \cup {[p |-> Append(x.p, st), n |-> Step("empty", [Start EXCEPT !.n = x.n], st).n] :
                            x \in {y \in shorter : Len(y.p) = l - 1},
                            st \in Instrs}
      Ok(p) == \A i \in 1 .. Len(p) : Enabled(IF i = 1 THEN 0 ELSE Observe("empty", SubSeq(p, 1, i - 1))[i - 1].n, p[i])
  IN ndJsonSerialize(IOEnv.OUT, SetToSeq({x.p : x \in {y \in Ext(EmitLen) : Len(y.p) > 0 /\ Ok(y.p)}}))
=============================================================================
