----------------------------- MODULE ProofTrace ------------------------------
(* Altered proofs and what the code made of them.                                                   *)
EXTENDS Proof, IOUtils, Json
CONSTANT Chunks
VARIABLE c
Trace == ndJsonDeserialize(IOEnv.TRACE)
Range(s) == {s[i] : i \in DOMAIN s}
NamesOK(e) == Range(e.names) = Components
\* Commitments made to fit are those of changed polynomials.
Presented(e) == LET ch == Range(e.changed) IN
                [changed |-> ch, how |-> IF e.how = "swap" THEN "swap" ELSE "junk", same |-> Range(e.same),
                 fit |-> CASE e.how = "idle" -> ch \cap Reprovable
                           [] e.how = "scale" -> IF \A x \in Folding : Rx(x) \in ch THEN {Rx(x) : x \in Folding} ELSE {}
                           [] OTHER -> {},
                 again |-> IF e.recommit THEN {x \in ch : \E k \in Committed : x = Commitment(k) /\ Rx(k) \in ch} ELSE {}]
\* Accepted only if no check the code is known to make can tell.
TamperOK(e) == /\ Range(e.changed) \subseteq All
               /\ IF "err" \in DOMAIN e.out THEN e.out.err = "error" ELSE TRUE
               /\ ("verdict" \in DOMAIN e.out /\ e.out.verdict) => Accepted(Presented(e), IF e.then = "verify" THEN "verify" ELSE "fuse")
               \* What was not altered at all is accepted.
               /\ e.comps = <<>> => "verdict" \in DOMAIN e.out /\ e.out.verdict
CaseOK(e) == IF e.kind = "names" THEN NamesOK(e) ELSE TamperOK(e)

Len_ == Len(Trace)
Init == c \in {<<k, k>> : k \in 1 .. (IF Len_ < Chunks THEN Len_ ELSE Chunks)}
Next == c[2] + Chunks <= Len_ /\ c' = <<c[1], c[2] + Chunks>>
Ok == CaseOK(Trace[c[2]])
=============================================================================
