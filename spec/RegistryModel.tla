--------------------------- MODULE RegistryModel ----------------------------
(* Circuits (here: their values at one point) are added to a builder in any order and category.    *)
(* Checked: the order of indices; that finalizing with more circuits moves no point of an index;   *)
(* that the interpolation goes through every circuit and nothing where none is registered; that    *)
(* it is the inverse transform of the values in bit-reversed order, of degree below the domain      *)
(* size; and that evaluation by Lagrange weights and by coefficients agree at every point.          *)
EXTENDS Registry
CONSTANT MaxCircuits
VARIABLE items
vars == <<items>>
Init == items = <<>>
Next == /\ Len(items) < MaxCircuits
        /\ \E k \in 1 .. Len(Categories) : items' = Append(items, [cat |-> Categories[k], v |-> 2 * Len(items) + 1])
Spec == Init /\ [][Next]_vars

O == Ordered(items)
K == Log2Ceil(Len(O))
Values == [i \in 1 .. 2 ^ K |-> IF i <= Len(O) THEN O[i].v % P ELSE 0]
M(w) == Dot(Weights(K, w), Values)
\* The coefficients in W: the i-th value sits at position bitrev(i) of the transform.
Coeffs == LET n == 2 ^ K
              pos == [j \in 1 .. n |-> Values[BitRev(j - 1, K) + 1]]
              wi == Inv(Omega(K))
              nInv == Inv(n % P)
          IN [i \in 1 .. n |-> Mul(nInv, Eval(pos, Pow(wi, i - 1)))]
TypeOK == Len(O) = Len(items)
Order == \A i, j \in 1 .. Len(O) : i < j =>
           LET ci == CHOOSE x \in 1 .. 4 : Categories[x] = O[i].cat
               cj == CHOOSE x \in 1 .. 4 : Categories[x] = O[j].cat
           IN ci < cj \/ (ci = cj /\ O[i].v < O[j].v)
DomainIsPoints == DomainSet(K) = {PointOf(i) : i \in 0 .. 2 ^ K - 1}
Distinct == Cardinality({PointOf(i) : i \in 0 .. 2 ^ K - 1}) = 2 ^ K
Through == \A i \in 1 .. 2 ^ K : M(PointOf(i - 1)) = Values[i]
Agree == LET cs == TLCEval(Coeffs) IN \A w \in F : M(w) = Eval(cs, w)
\* Points of an index, computed as position bitrev(i, K) in the domain of size 2^K, never move.
Stable == \A k \in K .. TwoAdicity : \A i \in 0 .. Len(O) - 1 : Pow(Omega(k), BitRev(i, k)) = PointOf(i)
=============================================================================
