----------------------------- MODULE StepsModel -----------------------------
(* The incremental bookkeeping accepts exactly the well-formed applications, at every moment.       *)
EXTENDS Steps
CONSTANTS MaxSteps, Indices
VARIABLES b, steps
vars == <<b, steps>>
Step == [i : Indices, l : Types, r : Types, o : Types]
Init == b = New /\ steps = <<>>
Next == b.ok /\ Len(steps) < MaxSteps /\ \E s \in Step : steps' = Append(steps, s) /\ b' = Register(b, s)
Exact == b.ok <=> WellFormed(steps)
Count == b.ok => b.n = Len(steps)
Owners == b.ok => /\ \A t \in TypesOf(steps) : b.owner[SuffixOf[t]] = t
                  /\ DOMAIN b.owner = {SuffixOf[t] : t \in TypesOf(steps)}
\* Going on never changes what was registered.
Keeps == [][\A x \in DOMAIN b.owner : b'.owner[x] = b.owner[x]]_vars
Listed == Results(steps, 1) = [i \in 1 .. Len(steps) |-> IF b.ok \/ i < Len(steps) THEN "ok" ELSE "initialization"]
Spec == Init /\ [][Next]_vars
=============================================================================
