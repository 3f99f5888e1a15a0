-------------------------------- MODULE Poly --------------------------------
(* Polynomials with 4N coefficients and the operations the proof system uses on them, by their     *)
(* meaning on the full list of coefficients. A register machine holds several of them.             *)
EXTENDS Field
CONSTANT N
Cap == 4 * N
ZeroP == TLCEval([i \in 1 .. Cap |-> 0])
Full(c) == TLCEval([i \in 1 .. Cap |-> IF i <= Len(c) THEN c[i] ELSE 0])
\* Wire buffers by gate; the wiring side swaps a with b and c with d.
FromWires(a, b, c, d) ==
  TLCEval([i \in 1 .. Cap |->
    LET k == i - 1
        at(s, j) == IF j < Len(s) THEN s[j + 1] ELSE 0
    IN IF k < N THEN at(c, k)
       ELSE IF k < 2 * N THEN at(b, 2 * N - 1 - k)
       ELSE IF k < 3 * N THEN at(a, k - 2 * N)
       ELSE at(d, 4 * N - 1 - k)])
ViewOf(e) == IF e.side = "trace" THEN FromWires(e.a, e.b, e.c, e.d) ELSE FromWires(e.b, e.a, e.d, e.c)
PAdd(p, q) == TLCEval([i \in 1 .. Cap |-> Add(p[i], q[i])])
PSub(p, q) == TLCEval([i \in 1 .. Cap |-> Sub(p[i], q[i])])
PScale(p, k) == TLCEval([i \in 1 .. Cap |-> Mul(p[i], k)])
PNeg(p) == TLCEval([i \in 1 .. Cap |-> Neg(p[i])])
PDilate(p, z) == LET w == TLCEval(Powers(z, Cap)) IN TLCEval([i \in 1 .. Cap |-> Mul(p[i], w[i])])
PFold(ps, k) == FoldLeft(LAMBDA acc, q : PAdd(PScale(acc, k), q), ZeroP, ps)
RevDot(p, q) == FoldLeftDomain(LAMBDA acc, i : (acc + p[i] * q[Cap + 1 - i]) % P, 0, p)
\* t(X, z) = - sum_i X^(4n-1-i) (z^(2n-1-i) + z^(2n+i))
TZ(z) == LET w == TLCEval(Powers(z, Cap))
         IN TLCEval([k \in 1 .. Cap |-> IF k - 1 >= 3 * N
              THEN LET i == Cap - k IN Neg(Add(w[2 * N - i], w[2 * N + i + 1])) ELSE 0])
TX(x) == LET w == TLCEval(Powers(x, Cap))
         IN TLCEval([k \in 1 .. Cap |-> IF k - 1 >= N /\ k - 1 < 3 * N
              THEN LET i == IF k - 1 < 2 * N THEN 2 * N - k ELSE k - 1 - 2 * N IN Neg(w[Cap - i]) ELSE 0])
TXZ(x, z) == Eval(TZ(z), x)

\* An iterator taken from either end: what each step yields (P stands for "nothing").
Taken(p, sched) ==
  FoldLeft(LAMBDA st, s :
     IF st.f >= st.b THEN [st EXCEPT !.out = Append(@, <<P, 0>>)]
     ELSE IF s = 0 THEN [st EXCEPT !.f = @ + 1, !.out = Append(@, <<p[st.f + 1], st.b - st.f>>)]
     ELSE [st EXCEPT !.b = @ - 1, !.out = Append(@, <<p[st.b], st.b - st.f>>)],
     [f |-> 0, b |-> Cap, out |-> <<>>], sched).out
Rev(p) == TLCEval([i \in 1 .. Cap |-> p[Cap + 1 - i]])

\* What one operation makes of the registers, <<>> where it is refused.
Result(e, r) ==
  CASE e.o = "new" -> <<ZeroP>>
    [] e.o = "from" -> IF Len(e.c) <= Cap THEN <<Full(e.c)>> ELSE <<>>
    [] e.o = "view" -> IF \A s \in {e.a, e.b, e.c, e.d} : Len(s) <= N THEN <<ViewOf(e)>> ELSE <<>>
    [] e.o = "tz" -> <<TZ(e.z)>>
    [] e.o = "tx" -> <<TX(e.z)>>
    [] e.o = "copy" -> <<r[e.s]>>
    [] e.o = "scale" -> <<PScale(r[e.r], e.z)>>
    [] e.o = "neg" -> <<PNeg(r[e.r])>>
    [] e.o = "dilate" -> <<PDilate(r[e.r], e.z)>>
    [] e.o = "add" -> <<PAdd(r[e.r], r[e.s])>>
    [] e.o = "sub" -> <<PSub(r[e.r], r[e.s])>>
    [] e.o = "fold" -> <<PFold([i \in 1 .. Len(e.l) |-> r[e.l[i]]], e.z)>>
Changes == {"new", "from", "view", "tz", "tx", "copy", "scale", "neg", "dilate", "add", "sub", "fold"}
\* What one observation of the registers yields. Generator i is ks[i] times a base point.
Seen(e, r, ks) ==
  CASE e.o = "eval" -> Eval(r[e.r], e.z)
    [] e.o = "revdot" -> RevDot(r[e.r], r[e.s])
    [] e.o = "rev" -> Rev(r[e.r])
    [] e.o = "mixed" -> Taken(r[e.r], e.sched)
    [] e.o = "txz" -> TXZ(e.x, e.z)
    [] e.o = "commit" -> FoldLeftDomain(LAMBDA acc, i : (acc + r[e.r][i] * ks[i]) % P, 0, r[e.r])
=============================================================================
