----------------------------- MODULE StagedGen ------------------------------
(* Every chain of stages up to a length, every size and every use.                                 *)
EXTENDS Staged, IOUtils, Json
CONSTANTS EmitLen, Sizes
Stage1 == {[values |-> s[1], wires |-> s[2], mode |-> m] : s \in {s \in Sizes \X Sizes : s[2] <= s[1]}, m \in {"skip", "unenforced", "enforced"}}
RECURSIVE Chains(_)
Chains(n) == IF n = 0 THEN {<<>>} ELSE {<<s>> \o t : s \in Stage1, t \in Chains(n - 1)}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({[stages |-> s] : s \in UNION {Chains(n) : n \in 0 .. EmitLen}}))
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
