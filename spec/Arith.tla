------------------------------- MODULE Arith -------------------------------
(* What ragu_arithmetic promises, as mathematics: the meaning of every public operation of the    *)
(* crate. ArithAlgo model-checks the algorithms against these meanings; ArithTrace checks recorded *)
(* calls of the real code against them.                                                            *)
EXTENDS Field
CONSTANTS TwoAdicity,  \* S
          Gen          \* multiplicative generator

RootOfUnity == Pow(Gen, (P - 1) \div (2 ^ TwoAdicity))
Omega(k) == Pow(RootOfUnity, 2 ^ (TwoAdicity - k))
DomainSet(k) == {Pow(Omega(k), i) : i \in 0 .. 2 ^ k - 1}
IsPrimitiveRoot(w, k) == Pow(w, 2 ^ k) = 1 /\ (k = 0 \/ Pow(w, 2 ^ (k - 1)) = P - 1)

\* Tagged coefficients: the value a tag denotes.
Tags == {"Zero", "One", "Two", "NegativeOne", "Arbitrary", "NegativeArbitrary", "From"}
TagValue(c) == CASE c.t = "Zero" -> 0
                 [] c.t = "One" -> 1
                 [] c.t = "Two" -> 2
                 [] c.t = "NegativeOne" -> P - 1
                 [] c.t = "Arbitrary" -> c.v
                 [] c.t = "From" -> c.v
                 [] c.t = "NegativeArbitrary" -> Neg(c.v)
\* The values of all registers of a straight-line program over tagged coefficients.
RunProg(lits, prog) ==
  FoldLeft(LAMBDA regs, st : Append(regs, IF st.o = "add" THEN Add(regs[st.a], regs[st.b])
                                          ELSE Mul(regs[st.a], regs[st.b])),
           [i \in 1 .. Len(lits) |-> TagValue(lits[i])], prog)

RECURSIVE BitRev(_, _)
BitRev(n, l) == IF l = 0 THEN 0 ELSE (n % 2) * 2 ^ (l - 1) + BitRev(n \div 2, l - 1)

\* Bits least significant first: the lowest l reversed, the rest dropped.
BitRevSeq(b, l) == [i \in 1 .. 32 |-> IF i <= l THEN b[l + 1 - i] ELSE 0]

Dft(p, w) == LET pw == Powers(w, Len(p)) IN [i \in 1 .. Len(p) |-> Eval(p, pw[i])]
\* q is the inverse transform of p  <=>  the transform of q is p (the transform is a bijection).
IsInverseDft(q, p, w) == Len(q) = Len(p) /\ Dft(q, w) = p

\* Lagrange basis values at x of the domain of size 2^k, by their definition.
Ell(k, x, amount) ==
  LET n == 2 ^ k
      w == Powers(Omega(k), n)
      num == FoldLeftDomain(LAMBDA acc, j : Mul(acc, Sub(x, w[j])), 1, SubSeq(w, 1, n))
  IN [i \in 1 .. amount |-> Div(num, Mul(Sub(x, w[i]),
        ProdSeq([j \in 1 .. n - 1 |-> LET jj == IF j < i THEN j ELSE j + 1 IN Sub(w[i], w[jj])])))]

\* The quotient of (p - p(x)) by (X - x): what remains when the remainder is dropped.
IsQuotient(q, p, x) ==
  /\ Len(q) = Len(p) - 1
  /\ PolyEq(PolyAdd(PolyMul(q, <<Neg(x), 1>>), <<Eval(p, x)>>), p)

Geosum(x, m) == FoldLeft(LAMBDA acc, i : (acc * x + 1) % P, 0, [i \in 1 .. m |-> i])
=============================================================================
