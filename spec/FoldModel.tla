------------------------------ MODULE FoldModel ------------------------------
(* What the reduction guarantees.                                                                    *)
(*   Complete: the folded polynomials multiply to the value computed from claims and error terms, for *)
(*     all challenges. Both sides are bilinear in the a's and the b's, so unit vectors suffice.        *)
(*   Sound: a prover who differs from the truth in some claim, whatever error terms it sends, is       *)
(*     caught by all but a bounded number of challenges.                                              *)
(*   Paired: the n-th claim is compared with the value meant for it.                                   *)
EXTENDS Fold
CONSTANTS Ns, Ms,        \* dimensions for completeness
          Size, Diffs    \* size and entries of the difference matrix for soundness
VARIABLES ph, n, m, i, j, mu, nu, mu2, nu2, d
vars == <<ph, n, m, i, j, mu, nu, mu2, nu2, d>>

Unit(k, at) == [x \in 1 .. k |-> IF x = at THEN 1 ELSE 0]
\* One-dimensional vectors: products are products of numbers.
Products(a, b, q) == LET od == OffDiagonal(q) IN [x \in DOMAIN od |-> Mul(a[od[x][1]], b[od[x][2]])]
Diagonal(a, b) == [x \in DOMAIN a |-> Mul(a[x], b[x])]
Complete ==
  ph = "honest" =>
    LET a == Unit(n * m, i)
        b == Unit(n * m, j)
        ga(g) == Group(a, m, g, 0)
        gb(g) == Group(b, m, g, 0)
        fa == [g \in 1 .. n |-> FoldScalars(ga(g), Inv(mu))]
        fb == [g \in 1 .. n |-> FoldScalars(gb(g), Mul(mu, nu))]
        col == [g \in 1 .. n |-> ClaimValue(m, mu, nu, Products(ga(g), gb(g), m), Diagonal(ga(g), gb(g)))]
        c == ClaimValue(n, mu2, nu2, Products(fa, fb, n), col)
    IN  /\ col = Diagonal(fa, fb)
        /\ c = Mul(FoldScalars(fa, Inv(mu2)), FoldScalars(fb, Mul(mu2, nu2)))
        /\ FoldScalars(fa, Inv(mu2)) = TwoLayer(a, n, m, Inv(mu), Inv(mu2))

\* The difference of claimed and true value, with d the differences of its terms.
Bound == 3 * (Size - 1) * P
Sound ==
  ph = "cheat" =>
    LET kys == [x \in 1 .. Size |-> d[x]]
        errs == [x \in 1 .. Size * Size - Size |-> d[Size + x]]
        lucky == {q \in (F \ {0}) \X F : ClaimValue(Size, q[1], q[2], errs, kys) = 0}
    IN  (\E x \in 1 .. Size : kys[x] # 0) => Cardinality(lucky) <= Bound

Paired ==
  ph = "start" => \A p \in 1 .. 3 :
    LET c == NativeClaims(p)
    IN  /\ NativeKys(p, Len(c)) = [x \in DOMAIN c |-> KyOf(c[x])]
        /\ p = 1 => LET q == NestedClaims(1)
                    IN  NestedKys(Len(q)) = [x \in DOMAIN q |-> IF q[x].t = "circuit" THEN "1" ELSE "0"]
        \* Every trace of every proof is in some circuit's claim and under some mask.
        /\ \A id \in Range(NativeIds) : \A k \in DOMAIN NativeParts(id) : \A pr \in 1 .. p :
             \E x \in DOMAIN c : c[x].t = "bonding" /\ \E y \in DOMAIN c[x].rx : c[x].rx[y] = <<pr, NativeParts(id)[k]>>

Zeros == [x \in 1 .. Size * Size |-> 0]
Init == /\ ph = "start" /\ n = 1 /\ m = 1 /\ i = 1 /\ j = 1 /\ mu = 1 /\ nu = 0 /\ mu2 = 1 /\ nu2 = 0 /\ d = Zeros
Next == \/ /\ ph = "start" /\ ph' = "pick"
           /\ n' \in Ns /\ m' \in Ms
           /\ i' \in 1 .. n' * m' /\ j' \in 1 .. n' * m'
           /\ UNCHANGED <<mu, nu, mu2, nu2, d>>
        \/ /\ ph = "pick" /\ ph' = "honest"
           /\ mu' \in F \ {0} /\ nu' \in F /\ mu2' \in F \ {0} /\ nu2' \in F
           /\ UNCHANGED <<n, m, i, j, d>>
        \/ /\ ph = "start" /\ ph' = "rows"
           /\ \E row \in [1 .. Size -> Diffs] : d' = [x \in DOMAIN d |-> IF x <= Size THEN row[x] ELSE 0]
           /\ UNCHANGED <<n, m, i, j, mu, nu, mu2, nu2>>
        \/ /\ ph = "rows" /\ ph' = "cheat"
           /\ \E e \in [1 .. Size * Size - Size -> Diffs] : d' = [x \in DOMAIN d |-> IF x <= Size THEN d[x] ELSE e[x - Size]]
           /\ UNCHANGED <<n, m, i, j, mu, nu, mu2, nu2>>
=============================================================================
