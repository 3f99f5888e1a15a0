----------------------------- MODULE SpongeTrace -----------------------------
(* Recorded histories over a small field with parameters of our own: every value that comes out, and *)
(* every refusal, is what the machine gives; and all drivers agree.                                  *)
EXTENDS Sponge, IOUtils, Json
CONSTANTS Chunks
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE c

Same(r, e) == r.e = e.err /\ r.v = e.cells
CaseOK(h) ==
  LET want == IF h.kind = "sponge" THEN SpongeRun(h.params, h.ops) ELSE TranscriptRun(h.params, h.tag, h.ops)
  IN  /\ h.same
      /\ Len(h.res) = Len(h.ops)
      /\ \A i \in DOMAIN want : Same(h.res[i], want[i])

Len_ == Len(Trace)
Init == c \in {<<k, k>> : k \in 1 .. (IF Len_ < Chunks THEN Len_ ELSE Chunks)}
Next == c[2] + Chunks <= Len_ /\ c' = <<c[1], c[2] + Chunks>>
Ok == CaseOK(Trace[c[2]])
=============================================================================
