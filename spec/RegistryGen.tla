---------------------------- MODULE RegistryGen -----------------------------
(* Every sequence of categories up to a length.                                                    *)
EXTENDS Registry, IOUtils, Json
CONSTANT EmitLen
RECURSIVE Seqs(_)
Seqs(n) == IF n = 0 THEN {<<>>} ELSE {<<Categories[k]>> \o s : k \in 1 .. 4, s \in Seqs(n - 1)}
All == UNION {Seqs(n) : n \in 1 .. EmitLen}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({[cats |-> s] : s \in All}))
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
