------------------------------ MODULE NestTrace ------------------------------
(* What the code made of strays on its polynomials over the other field.      *)
EXTENDS Nest, IOUtils, Json
CONSTANTS Chunks, Gates
VARIABLE c
Trace == ndJsonDeserialize(IOEnv.TRACE)
Range(s) == {s[i] : i \in DOMAIN s}
NestOK(e) == LET s == e.strays b == Range(e.out.broken) IN
             /\ "broken" \in DOMAIN e.out
             /\ b \subseteq Masks \cup StepClaims
             \* Gate 0 is for what hides the rest; masks let that by.
             /\ LET zero == {MaskOf(s[j].poly) : j \in {j \in DOMAIN s : s[j].gate = 0}} IN (b \cap Masks) \ zero = BrokenMasks(s) \ zero
             /\ Fails(s) \subseteq b
             /\ Holds(s) \cap b = {}
             \* The verifier sees what is broken, and what is no longer committed to.
             /\ e.out.verdict = (b = {} /\ AnyExcess(s) \cap BridgePolys = {})
CaseOK(e) == IF e.kind = "size" THEN e.gates = Gates ELSE NestOK(e)

Len_ == Len(Trace)
Init == c \in {<<k, k - Chunks>> : k \in 1 .. (IF Len_ < Chunks THEN Len_ ELSE Chunks)}
Next == c[2] + Chunks <= Len_ /\ c' = <<c[1], c[2] + Chunks>>
Ok == c[2] > 0 => CaseOK(Trace[c[2]])
=============================================================================
