----------------------------- MODULE PolyBlocks -----------------------------
(* How the polynomials are stored: sorted, disjoint, non-empty runs of coefficients, gaps being    *)
(* zero. Two stored polynomials (any two well-formed ones) and an iterator walking the first from  *)
(* both ends. Every algorithm on runs is compared with the meaning of the operation in Poly; that  *)
(* it maps well-formed storage to well-formed storage makes the argument hold for every history.   *)
EXTENDS Field
CONSTANTS N, Gap, MaxBlocks
VARIABLES a, b, it
vars == <<a, b, it>>
D == INSTANCE Poly
Cap == 4 * N

\* A run is <<start, values>>.
BEnd(x) == x[1] + Len(x[2])
WellFormed(bs) ==
  /\ \A i \in 1 .. Len(bs) : bs[i][2] # <<>> /\ BEnd(bs[i]) <= Cap
  /\ \A i \in 1 .. Len(bs) - 1 : BEnd(bs[i]) <= bs[i + 1][1]
Dense(bs) ==
  TLCEval([k \in 1 .. Cap |->
    LET hit == {i \in 1 .. Len(bs) : bs[i][1] <= k - 1 /\ k - 1 < BEnd(bs[i])}
    IN IF hit = {} THEN 0 ELSE LET x == bs[CHOOSE i \in hit : TRUE] IN x[2][k - x[1]]])
\* All well-formed storages.
RECURSIVE Storages(_, _)
Storages(from, k) ==
  {<<>>} \cup (IF k = 0 THEN {} ELSE UNION {UNION {
     {<<<<s, v>>>> \o rest : v \in [1 .. l -> F], rest \in Storages(s + l, k - 1)}
     : l \in 1 .. Cap - s} : s \in from .. Cap - 1})
All == Storages(0, MaxBlocks)

\* Splitting a list of values into runs: gaps longer than Gap split, ends are trimmed.
ExtendRuns(out, base, data) ==
  LET step(st, i) ==
        IF data[i] # 0
        THEN IF st.start = -1 THEN [st EXCEPT !.start = base + i - 1, !.run = <<data[i]>>]
             ELSE [st EXCEPT !.run = @ \o [j \in 1 .. st.zeros |-> 0] \o <<data[i]>>, !.zeros = 0]
        ELSE IF st.start = -1 THEN st
        ELSE IF st.zeros + 1 > Gap
        THEN [out |-> Append(st.out, <<st.start, st.run>>), start |-> -1, run |-> <<>>, zeros |-> 0]
        ELSE [st EXCEPT !.zeros = @ + 1]
      r == FoldLeft(step, [out |-> out, start |-> -1, run |-> <<>>, zeros |-> 0], [i \in 1 .. Len(data) |-> i])
  IN IF r.start = -1 THEN r.out ELSE Append(r.out, <<r.start, r.run>>)

\* Adding q times factor g by clusters of overlapping or adjacent runs.
Hi(x, y) == IF x > y THEN x ELSE y
Lo(x, y) == IF x < y THEN x ELSE y
RECURSIVE Grow(_, _, _, _, _), Merge(_, _, _, _, _, _)
Grow(l, r, li, ri, end) ==
  IF li <= Len(l) /\ l[li][1] <= end THEN Grow(l, r, li + 1, ri, Hi(end, BEnd(l[li])))
  ELSE IF ri <= Len(r) /\ r[ri][1] <= end THEN Grow(l, r, li, ri + 1, Hi(end, BEnd(r[ri])))
  ELSE <<li, ri, end>>
Merge(l, r, li, ri, out, g) ==
  IF li > Len(l) /\ ri > Len(r) THEN out
  ELSE LET start == IF li > Len(l) THEN r[ri][1] ELSE IF ri > Len(r) THEN l[li][1] ELSE Lo(l[li][1], r[ri][1])
           e == Grow(l, r, li, ri, start)
           ls == SubSeq(l, li, e[1] - 1)
           rs == SubSeq(r, ri, e[2] - 1)
           dl == Dense(ls)
           dr == Dense(rs)
           data == [k \in 1 .. e[3] - start |-> (dl[start + k] + g * dr[start + k]) % P]
       IN IF rs = <<>> THEN Merge(l, r, e[1], e[2], out \o ls, g)
          ELSE IF start = 0 /\ e[3] = Cap THEN Merge(l, r, e[1], e[2], Append(out, <<0, data>>), g)
          ELSE Merge(l, r, e[1], e[2], ExtendRuns(out, start, data), g)
AddBlocks(l, r, g) ==
  IF r = <<>> THEN l
  ELSE IF l = <<>> THEN FoldLeft(LAMBDA out, x : ExtendRuns(out, x[1], [k \in 1 .. Len(x[2]) |-> (g * x[2][k]) % P]), <<>>, r)
  ELSE Merge(l, r, 1, 1, <<>>, g)
MapBlocks(bs, f(_)) == [i \in 1 .. Len(bs) |-> <<bs[i][1], [k \in 1 .. Len(bs[i][2]) |-> f(bs[i][2][k])]>>]
ScaleBlocks(bs, k) == IF k = 0 THEN <<>> ELSE MapBlocks(bs, LAMBDA v : Mul(v, k))
EvalBlocks(bs, z) ==
  LET r == FoldRight(LAMBDA x, st : [v |-> FoldRight(LAMBDA c, acc : (acc * z + c) % P, x[2],
                                                     Mul(st.v, Pow(z, st.prev - BEnd(x)))), prev |-> x[1]],
                     bs, [v |-> 0, prev |-> Cap])
  IN Mul(r.v, Pow(z, r.prev))
DilateBlocks(bs, z) ==
  FoldLeft(LAMBDA st, x :
     LET p0 == Mul(st.p, Pow(z, x[1] - st.prev))
     IN [p |-> Mul(p0, Pow(z, Len(x[2]))), prev |-> BEnd(x),
         out |-> Append(st.out, <<x[1], [k \in 1 .. Len(x[2]) |-> Mul(x[2][k], Mul(p0, Pow(z, k - 1)))]>>)],
     [p |-> 1, prev |-> 0, out |-> <<>>], bs).out
\* Two pointers: the first operand's runs upwards, the second's downwards.
RECURSIVE RevDotFrom(_, _, _, _, _)
RevDotFrom(l, r, i, j, acc) ==
  IF i > Len(l) \/ j < 1 THEN acc
  ELSE LET lo == Cap - BEnd(r[j])
           hi == Cap - r[j][1]
           ol == Hi(l[i][1], lo)
           oh == Lo(BEnd(l[i]), hi)
           here == FoldLeft(LAMBDA s, k : (s + l[i][2][k - l[i][1] + 1] * r[j][2][Cap - 1 - k - r[j][1] + 1]) % P, acc,
                            [k \in 1 .. (IF oh > ol THEN oh - ol ELSE 0) |-> ol + k - 1])
       IN RevDotFrom(l, r, IF BEnd(l[i]) <= hi THEN i + 1 ELSE i, IF hi <= BEnd(l[i]) THEN j - 1 ELSE j, here)
RevDotBlocks(l, r) == RevDotFrom(l, r, 1, Len(r), 0)
\* View: the four buffers are placed as up to four runs and split.
ViewBlocks(x, y, z, w) ==
  LET rev(s) == [i \in 1 .. Len(s) |-> s[Len(s) + 1 - i]]
      raw == SelectSeq(<<<<0, z>>, <<2 * N - Len(y), rev(y)>>, <<2 * N, x>>, <<4 * N - Len(w), rev(w)>>>>, LAMBDA t : t[2] # <<>>)
  IN FoldLeft(LAMBDA out, t : ExtendRuns(out, t[1], t[2]), <<>>, raw)

\* The iterator: front and back positions, and the runs it has not passed yet at either end.
Start == [front |-> 0, back |-> Cap, fb |-> 1, bb |-> Len(a), out |-> P, want |-> P]
RECURSIVE SkipF(_), SkipB(_, _)
SkipF(i) == IF i.fb <= Len(a) /\ BEnd(a[i.fb]) <= i.front THEN SkipF([i EXCEPT !.fb = @ + 1]) ELSE i
SkipB(i, back) == IF i.bb >= 1 /\ a[i.bb][1] > back THEN SkipB([i EXCEPT !.bb = @ - 1], back) ELSE i
Val(j, k) == IF j >= 1 /\ j <= Len(a) /\ a[j][1] <= k /\ k < BEnd(a[j]) THEN a[j][2][k - a[j][1] + 1] ELSE 0
NextFront == /\ it.front < it.back
         /\ LET i == SkipF(it) IN it' = [i EXCEPT !.front = @ + 1, !.out = Val(i.fb, i.front), !.want = Dense(a)[i.front + 1]]
NextBack == /\ it.front < it.back
        /\ LET k == it.back - 1
               i == SkipB(it, k) IN it' = [i EXCEPT !.back = k, !.out = Val(i.bb, k), !.want = Dense(a)[k + 1]]

Init == a \in All /\ b = <<>> /\ it = Start
Pick == it = Start /\ b' \in All \ {<<>>} /\ UNCHANGED <<a, it>>
Next == b = <<>> /\ (Pick \/ ((NextFront \/ NextBack) /\ UNCHANGED <<a, b>>))
Iterates == it.out = it.want
Initial == it = Start
Binary ==
  Initial =>
    LET da == Dense(a)
        db == Dense(b)
        sum == AddBlocks(a, b, 1)
        dif == AddBlocks(a, b, P - 1)
    IN /\ WellFormed(sum) /\ Dense(sum) = D!PAdd(da, db)
       /\ WellFormed(dif) /\ Dense(dif) = D!PSub(da, db)
       /\ RevDotBlocks(a, b) = D!RevDot(da, db)
Unary ==
  (Initial /\ b = <<>>) =>
    LET da == Dense(a)
    IN /\ \A z \in F : /\ EvalBlocks(a, z) = Eval(da, z)
                       /\ Dense(DilateBlocks(a, z)) = D!PDilate(da, z) /\ WellFormed(DilateBlocks(a, z))
                       /\ Dense(ScaleBlocks(a, z)) = D!PScale(da, z) /\ WellFormed(ScaleBlocks(a, z))
       /\ Dense(MapBlocks(a, Neg)) = D!PNeg(da)
       /\ LET r == ExtendRuns(<<>>, 0, da) IN WellFormed(r) /\ Dense(r) = da
       \* The runs of a taken as wire buffers.
       /\ LET s(i) == IF i <= Len(a) /\ Len(a[i][2]) <= N THEN a[i][2] ELSE <<>>
              v == ViewBlocks(s(1), s(2), s(3), s(4))
          IN WellFormed(v) /\ Dense(v) = D!FromWires(s(1), s(2), s(3), s(4))
=============================================================================
