----------------------------- MODULE StepsTrace ------------------------------
(* Registrations carried out by the code, the applications they led to, and suffixes as words.      *)
EXTENDS Steps, IOUtils, Json
CONSTANT Chunks
VARIABLE c
Trace == ndJsonDeserialize(IOEnv.TRACE)

\* An application of n steps: each is found where its index says, as it is on its own; nothing beyond.
AppOK(f, n) ==
  /\ "ok" \in DOMAIN f
  /\ LET o == f.ok IN
     /\ o.circuits = o.internal + n
     /\ Len(o.steps) = n
     /\ \A i \in 1 .. n : o.steps[i].got = o.steps[i].want /\ o.steps[i].inside
     /\ \A i, j \in 1 .. n : i # j => o.steps[i].got # o.steps[j].got /\ o.steps[i].point # o.steps[j].point
     /\ \A i \in DOMAIN o.over : o.over[i] = [err |-> "initialization"]
     /\ o.unregistered = [err |-> "initialization"]
CaseOK(e) ==
  CASE e.kind = "build" -> /\ e.res = Results(e.steps, 1)
                           /\ "none" \in DOMAIN e.fin \/ (WellFormed(e.steps) /\ AppOK(e.fin, Len(e.steps)))
    [] e.kind = "many" -> AppOK(e.fin, e.n)
    [] e.kind = "suffix" -> LET want == AppSuffix(e.w, 65536)
                            IN IF "ok" \in DOMAIN want THEN e.out = want ELSE e.out = [err |-> "refused"]
    [] e.kind = "points" -> \A a, b \in DOMAIN e.rows : e.rows[a].i = e.rows[b].i <=> e.rows[a].point = e.rows[b].point

Len_ == Len(Trace)
Init == c \in {<<k, k>> : k \in 1 .. (IF Len_ < Chunks THEN Len_ ELSE Chunks)}
Next == c[2] + Chunks <= Len_ /\ c' = <<c[1], c[2] + Chunks>>
Ok == CaseOK(Trace[c[2]])
=============================================================================
