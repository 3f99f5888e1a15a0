------------------------------ MODULE StepsGen -------------------------------
(* Registrations to run on the code, sizes of applications, suffixes at the edges of a word.        *)
EXTENDS Steps, IOUtils, Json, Randomization
CONSTANTS Pairs,   \* sampled sequences of two steps
          Longer,  \* sampled sequences of up to four
          Finish,  \* how many of the well-formed ones to finish
          Sizes    \* numbers of steps of large applications
AnyStep(i) == [i : {i}, l : Types, r : Types, o : Types]
Same(i) == {[i |-> i, l |-> t, r |-> t, o |-> t] : t \in Types}
Of(i) == IF i <= 1 THEN AnyStep(i) ELSE Same(i)
One == {<<s>> : s \in UNION {Of(i) : i \in 0 .. 3}}
Two == RandomSubset(Pairs, AnyStep(0) \X AnyStep(1)) \cup RandomSubset(Pairs \div 10, AnyStep(0) \X (AnyStep(0) \cup Same(2)))
\* Those that get further: types that do not clash.
Good(i) == {s \in Of(i) : WellFormed(<<[s EXCEPT !.i = 0]>>)}
Fine == {s \in Good(0) \X Good(1) : WellFormed(s)}
Three == RandomSubset(Longer, {Append(s, t) : s \in Fine, t \in Same(2)})
Four == RandomSubset(Longer, {s \o <<t, u>> : s \in Fine, t \in {t \in Same(2) : t.l \in {"unit", "A", "C"}}, u \in Same(3) \cup Same(2)})
Seqs == One \cup Two \cup Three \cup Four
Finished == RandomSubset(Finish, {s \in Seqs \cup Fine : WellFormed(s) /\ Len(s) >= 2}) \cup {<<>>}
Fin(s) == IF s \in Finished THEN 1 ELSE 0

W == 65535
Words == {<<a, b, c, d>> : a \in {0, 1, W}, b \in {0, W}, c \in {0, 1, W}, d \in {0, 1, 2, W - 3, W - 2, W - 1, W}}
Scenarios == SetToSeq({[kind |-> "build", steps |-> s, fin |-> Fin(s)] : s \in Seqs \cup Finished})
             \o SetToSeq({[kind |-> "many", n |-> n] : n \in Sizes})
             \o SetToSeq({[kind |-> "suffix", w |-> w] : w \in Words})
ASSUME ndJsonSerialize(IOEnv.OUT, Scenarios)
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
