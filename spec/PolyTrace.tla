------------------------------ MODULE PolyTrace -----------------------------
(* Recorded histories of operations on registers holding polynomials.                              *)
EXTENDS Poly, IOUtils, Json
CONSTANTS Chunks, Regs
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE c

CaseOK(h) ==
  FoldLeft(LAMBDA st, e :
     IF ~st.ok THEN st
     ELSE IF e.o \in Changes
     THEN LET q == Result(e, st.r)
          IN IF q = <<>> THEN [st EXCEPT !.ok = "panic" \in DOMAIN e.out]
             ELSE [ok |-> "ok" \in DOMAIN e.out /\ e.out.ok = q[1], r |-> [st.r EXCEPT ![e.r] = q[1]]]
     ELSE [st EXCEPT !.ok = "ok" \in DOMAIN e.out /\ e.out.ok = Seen(e, st.r, h.ks)],
     [ok |-> TRUE, r |-> [i \in 1 .. Regs |-> ZeroP]], h.ops).ok

Len_ == Len(Trace)
Init == c \in {<<k, k>> : k \in 1 .. (IF Len_ < Chunks THEN Len_ ELSE Chunks)}
Next == c[2] + Chunks <= Len_ /\ c' = <<c[1], c[2] + Chunks>>
Ok == CaseOK(Trace[c[2]])
=============================================================================
