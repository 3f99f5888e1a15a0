------------------------------ MODULE NestModel ------------------------------
(* One who puts something on gates of the polynomials over the other field,   *)
(* one gate after another, and takes it away again elsewhere: nothing goes     *)
(* unseen but what a step's own gates allow.                                  *)
EXTENDS Nest
CONSTANTS Most
Small == 2
Three == 3
VARIABLE strays
Spots == {[poly |-> p, gate |-> g, wire |-> w, k |-> k] : p \in Uncommitted, g \in 0 .. FirstOwn, w \in {1, 3}, k \in {1, -1}}
Init == strays = <<>>
Next == /\ Len(strays) < Most
        /\ \E s \in Spots : strays' = Append(strays, s)
\* The order they are put in does not matter.
Bag == [p \in Uncommitted |-> [g \in 0 .. FirstOwn |-> [w \in {1, 3} |-> AmountOn(strays, p, g, w)]]]
Seen == BrokenMasks(strays) \cup Fails(strays)
Unseen == Seen = {}
On(p) == {gw \in Places(strays) : AmountOn(strays, p, gw[1], gw[2]) # 0 /\ gw[1] # 0}
\* What a step goes by, and where it comes to, is what it was.
Kept == Unseen => \A p \in {"p.nested.endoscalar", "p.nested.points"} : On(p) = {}
\* What is on its own gates is its own affair.
Own_ == Unseen => \A p \in StepPolys : \A gw \in On(p) : Own(p, gw[1])
\* Each step is told apart: what is put on a point is seen by the steps that go by it, and no others.
Told == \A i \in 0 .. Steps - 1 : ~(StepClaim(i) \in Fails(strays) /\ StepClaim(i) \in Holds(strays))
AllUsed == UNION {UsedBy(i) : i \in 0 .. Steps - 1} = 1 .. FirstOwn - 1
ASSUME AllUsed
=============================================================================
