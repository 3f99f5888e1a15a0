------------------------------- MODULE EndoLaw ------------------------------
(* The mathematics endoscaling rests on, checked on a small curve: the endomorphism multiplies by a    *)
(* cube root of unity L of the scalar field, and scaling a point by bits (skipping exceptional          *)
(* additions) equals multiplying by the lifted scalar. The bits are chosen one pair per step; only the  *)
(* accumulated point and the accumulated scalar are remembered.                                        *)
EXTENDS Gadget
CONSTANTS B, Zeta,   \* the curve y^2 = x^3 + B and the cube root of unity of its field
          Order,     \* the (prime) number of points
          L,         \* the cube root of unity of the scalar field with Endo(p) = L p
          Steps
Env == [zeta |-> Zeta, g |-> 0, b |-> B]
Points == {p \in {<<x, y>> : x \in F, y \in F} : OnCurve(p, B)}
VARIABLES p, acc, k, n, s
Init == /\ p \in Points
        /\ n = 0
        /\ LET first == Chord(Endo(p, Env), p)
           IN  /\ s = first.s
               /\ acc = IF s = "ok" THEN PtAdd(first.p, first.p) ELSE <<>>
        /\ k = (2 * (L + 1)) % Order
Next == /\ n < Steps /\ s = "ok"
        /\ \E neg, endo \in {0, 1} :
             LET r == DoubleAdd(acc, EndoPoint(<<neg, endo>>, 1, p, Env))
                 t == (IF neg = 1 THEN Order - 1 ELSE 1) * (IF endo = 1 THEN L ELSE 1)
             IN  acc' = r.p /\ s' = r.s /\ k' = (2 * k + t) % Order
        /\ n' = n + 1 /\ UNCHANGED p
EndoIsL == Endo(p, Env) = PtMul(L, p)
Lifted == s = "ok" => acc = PtMul(k, p)
GroupLaw == /\ PtMul(Order, p) = <<>>
            /\ \A q \in {PtMul(2, p), PtMul(3, p), PtNeg(p)} : PtAdd(PtAdd(p, q), q) = PtAdd(p, PtAdd(q, q)) /\ PtAdd(p, q) = PtAdd(q, p)
=============================================================================
