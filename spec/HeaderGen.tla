------------------------------ MODULE HeaderGen ------------------------------
(* Header types, sizes and list lengths to run on the code: every shape at every size, and lists of *)
(* every length around what fits.                                                                   *)
EXTENDS Header, IOUtils, Json
CONSTANTS Sizes, Lens, Reps
Fixed == {"unit", "elem", "bool", "pair", "nest", "left", "arr", "arrpair", "trio2"}
Lists == {"vec", "vecpair", "vecend", "trio"}
Steps == {"step1", "step2", "step3", "step4"}
Near(n) == {k \in Lens : k <= n + 1}
Scenarios == {[n |-> n, k |-> 0, shape |-> s, rep |-> r] : n \in Sizes, s \in Fixed, r \in Reps}
             \cup {[n |-> q[1], k |-> q[2], shape |-> s, rep |-> r] : q \in {q \in Sizes \X Lens : q[2] \in Near(q[1])}, s \in Lists \cup Steps, r \in Reps}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Scenarios))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
