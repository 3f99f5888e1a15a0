----------------------------- MODULE MaybeTrace -----------------------------
(* Recorded runs of programs on the real combinators, in both worlds.                              *)
EXTENDS Maybe, TLC, IOUtils, Json
CONSTANT Chunks
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE c

ObsOK(x, s) == x.n = s.n /\ x.regs = s.regs /\ x.log = s.log /\ x.live = s.live /\ x.err = s.err
CaseOK(e) ==
  CASE e.kind = "prog" ->
         LET s == Observe(e.world, e.prog)
         IN /\ Len(e.obs) = Len(s)
            /\ \A i \in 1 .. Len(s) : ObsOK(e.obs[i], s[i])
            /\ e.left = 0
    [] e.kind = "size" -> e.always = e.bare /\ e.empty = 0
    [] OTHER -> FALSE

N == Len(Trace)
Init == c \in {<<k, k>> : k \in 1 .. (IF N < Chunks THEN N ELSE Chunks)}
Next == c[2] + Chunks <= N /\ c' = <<c[1], c[2] + Chunks>>
Ok == CaseOK(Trace[c[2]])
=============================================================================
