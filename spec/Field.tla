------------------------------- MODULE Field -------------------------------
(* A prime field small enough for TLC, polynomials as sequences of coefficients in ascending      *)
(* order, and short Weierstrass curves y^2 = x^3 + b.                                              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC
CONSTANT P   \* the prime
ASSUME PIsInt == P \in Nat /\ P > 1

F == 0 .. P - 1
Add(a, b) == (a + b) % P
Sub(a, b) == (a - b) % P
Neg(a) == (-a) % P
Mul(a, b) == (a * b) % P
RECURSIVE Pow(_, _)
Pow(a, e) == IF e = 0 THEN 1 % P
             ELSE IF e % 2 = 1 THEN Mul(a, Pow(a, e - 1))
             ELSE LET h == Pow(a, e \div 2) IN Mul(h, h)
Inv(a) == Pow(a, P - 2)
Div(a, b) == Mul(a, Inv(b))
IsSquare(a) == a = 0 \/ Pow(a, (P - 1) \div 2) = 1

SumSeq(s) == FoldLeft(Add, 0, s)
ProdSeq(s) == FoldLeft(Mul, 1, s)
Dot(a, b) == FoldLeftDomain(LAMBDA acc, i : (acc + a[i] * b[i]) % P, 0, a)
Eval(p, x) == FoldRight(LAMBDA c, acc : (acc * x + c) % P, p, 0)

Coef(p, i) == IF i < Len(p) THEN p[i + 1] ELSE 0          \* coefficient of X^i
PolyAdd(p, q) == TLCEval([i \in 1 .. (IF Len(p) > Len(q) THEN Len(p) ELSE Len(q)) |-> Add(Coef(p, i - 1), Coef(q, i - 1))])
PolyScale(p, c) == TLCEval([i \in 1 .. Len(p) |-> Mul(p[i], c)])
PolyMul(p, q) ==
  IF p = <<>> \/ q = <<>> THEN <<>>
  ELSE TLCEval([k \in 1 .. Len(p) + Len(q) - 1 |->
          FoldLeftDomain(LAMBDA acc, i : IF k - i >= 0 /\ k - i < Len(q) THEN (acc + p[i] * q[k - i + 1]) % P ELSE acc, 0, p)])
RootsPoly(rs) == FoldLeft(LAMBDA acc, r : PolyMul(acc, <<Neg(r), 1>>), <<1>>, rs)
RECURSIVE Trim(_)
Trim(p) == IF p # <<>> /\ p[Len(p)] = 0 THEN Trim(SubSeq(p, 1, Len(p) - 1)) ELSE p
PolyEq(p, q) == Trim(p) = Trim(q)
Powers(x, n) == FoldLeft(LAMBDA acc, i : Append(acc, Mul(acc[Len(acc)], x)), <<1 % P>>, [i \in 1 .. n |-> i])

\* Points: <<>> is the identity, otherwise <<x, y>>.
OnCurve(pt, b) == pt = <<>> \/ Mul(pt[2], pt[2]) = Add(Mul(pt[1], Mul(pt[1], pt[1])), b)
PtNeg(a) == IF a = <<>> THEN a ELSE <<a[1], Neg(a[2])>>
PtAdd(a, b) ==
  IF a = <<>> THEN b
  ELSE IF b = <<>> THEN a
  ELSE IF a[1] = b[1] /\ Add(a[2], b[2]) = 0 THEN <<>>
  ELSE LET l == IF a = b THEN Div(Mul(3, Mul(a[1], a[1])), Mul(2, a[2]))
                ELSE Div(Sub(b[2], a[2]), Sub(b[1], a[1]))
           x == Sub(Sub(Mul(l, l), a[1]), b[1])
       IN  <<x, Sub(Mul(l, Sub(a[1], x)), a[2])>>
RECURSIVE PtMul(_, _)
PtMul(k, a) == IF k = 0 THEN <<>>
               ELSE IF k % 2 = 1 THEN PtAdd(a, PtMul(k - 1, a))
               ELSE LET h == PtMul(k \div 2, a) IN PtAdd(h, h)
=============================================================================
