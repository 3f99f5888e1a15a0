------------------------------ MODULE CraftTrace -----------------------------
(* Proofs made to fit at a point, and what the verifier said.                  *)
EXTENDS Craft, IOUtils, Json
CONSTANT Chunks
VARIABLE c
Trace == ndJsonDeserialize(IOEnv.TRACE)
Range(s) == {s[i] : i \in DOMAIN s}
\* "none": there is no such proof, or it was not found.
CraftOK(e) == IF "none" \in DOMAIN e.out THEN e.what \in {"fold", "y"}
              ELSE /\ "verified" \in DOMAIN e.out
                   /\ "verdict" \in DOMAIN e.out.verified
                   /\ e.out.fits
                   /\ Range(e.out.broken) \subseteq Off(e)
                   /\ e.out.verified.verdict = (e.out.broken = <<>>)
CaseOK(e) == CraftOK(e)

Len_ == Len(Trace)
Init == c \in {<<k, k - Chunks>> : k \in 1 .. (IF Len_ < Chunks THEN Len_ ELSE Chunks)}
Next == c[2] + Chunks <= Len_ /\ c' = <<c[1], c[2] + Chunks>>
Ok == c[2] > 0 => CaseOK(Trace[c[2]])
=============================================================================
