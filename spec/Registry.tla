------------------------------ MODULE Registry ------------------------------
(* Registered circuits, their order, their domain points, and m(W, X, Y): the lowest-degree        *)
(* polynomial in W through them plus the key term k (XY)^(4N-1).                                   *)
EXTENDS Circuit, Arith

\* Categories in the order they are concatenated in.
Categories == <<"internal", "bonding", "step", "app">>
Ordered(items) ==
  FoldLeft(LAMBDA acc, k : acc \o SelectSeq(items, LAMBDA it : it.cat = k), <<>>, Categories)
RECURSIVE Log2Ceil(_)
Log2Ceil(n) == IF n <= 1 THEN 0 ELSE 1 + Log2Ceil((n + 1) \div 2)
\* The domain point of index i does not mention the number of circuits.
PointOf(i) == Pow(RootOfUnity, BitRev(i, TwoAdicity))
\* The Lagrange coefficients, by index, of w over the domain of size 2^k.
Weights(k, w) ==
  LET n == 2 ^ k
      pts == TLCEval([i \in 1 .. n |-> PointOf(i - 1)])
  IN TLCEval([i \in 1 .. n |->
       IF w = pts[i] THEN 1 % P
       ELSE IF \E j \in 1 .. n : pts[j] = w THEN 0
       ELSE FoldLeftDomain(LAMBDA acc, j : IF j = i THEN acc ELSE Mul(acc, Div(Sub(w, pts[j]), Sub(pts[i], pts[j]))), 1 % P, pts)])

\* A stage mask: the constraint wire * y^e = 0 for each wire outside gate 0 and the active gates,
\* at the exponent of the wire itself.
MaskedExps(skip, num) ==
  TLCEval([e \in 0 .. 4 * N - 1 |->
     LET i == CASE e < N -> e [] e < 2 * N -> 2 * N - 1 - e [] e < 3 * N -> e - 2 * N [] OTHER -> 4 * N - 1 - e
     IN i # 0 /\ ~(i >= skip /\ i < skip + num)])
MaskPoly(skip, num, v) == LET m == MaskedExps(skip, num)
                              vp == PowTab(v)
                          IN TLCEval([e \in 1 .. 4 * N |-> IF m[e - 1] THEN vp[e] ELSE 0])

\* Items of a registry: programs, and masks.
IsMask(it) == "mask" \in DOMAIN it
ItemElab(it) == IF IsMask(it) THEN it.mask ELSE Elab(it.prog, 0)
ItemSX(it, el, x) == IF IsMask(it) THEN MaskPoly(el.skip, el.num, x) ELSE SX(el, x)
ItemSY(it, el, y) == IF IsMask(it) THEN MaskPoly(el.skip, el.num, y) ELSE SY(el, y)
ItemCounts(it, el) == IF IsMask(it) THEN <<N, 4 * N - 1>> ELSE <<NumGates(el), NumCons(el)>>

WithKeyAt(poly, key, v) == Bump(poly, 4 * N - 1, Mul(key, Pow(v, 4 * N - 1)))
Combination(ws, polys) ==
  FoldLeftDomain(LAMBDA acc, i : IF ws[i] = 0 THEN acc ELSE PolyAdd(acc, PolyScale(polys[i], ws[i])), TLCEval(ZeroPoly), polys)
=============================================================================
