----------------------------- MODULE CraftModel ------------------------------
(* Two claims, each that a polynomial is zero, looked at in one point and      *)
(* folded by a random factor, over a small field. Whoever makes the proof      *)
(* knows some of what is drawn; that it must not be: a proof fits for almost   *)
(* no draw, but for each one draw there are proofs that fit.                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Q, Degree
VARIABLES diff, y, z
F == 0 .. Q - 1
Coeffs == [0 .. Degree -> F]
RECURSIVE Horner(_, _, _)
Horner(p, i, x) == IF i > Degree THEN 0 ELSE (p[i] + x * Horner(p, i + 1, x)) % Q
At(p, x) == Horner(p, 0, x)
Zero(p) == \A i \in 0 .. Degree : p[i] = 0
Fits(d, a, b) == (At(d[1], a) + b * At(d[2], a)) % Q = 0
Init == diff \in Coeffs \X Coeffs /\ y \in F /\ z \in F
Next == FALSE /\ UNCHANGED <<diff, y, z>>
\* Of Q * Q draws at most this many let something wrong by.
Bound == Degree * Q + Q
Sound == (y = 0 /\ z = 0 /\ ~(Zero(diff[1]) /\ Zero(diff[2]))) => Cardinality({p \in F \X F : Fits(diff, p[1], p[2])}) <= Bound
\* With the first point known, or the factor, the other one does not help.
Linear(a) == [[i \in 0 .. Degree |-> 0] EXCEPT ![0] = (Q - a) % Q, ![1] = 1]
Nought == [i \in 0 .. Degree |-> 0]
Known == /\ \A b \in F : Fits(<<Linear(y), Nought>>, y, b)
         /\ LET p == [Nought EXCEPT ![0] = (z * (Q - 1)) % Q] q == [Nought EXCEPT ![0] = 1] IN \A a \in F : Fits(<<p, q>>, a, z)
=============================================================================
