----------------------------- MODULE ArithAlgo -----------------------------
(* The algorithms the crate uses, as state machines, checked against the definitions in Arith for *)
(* every small input: the radix-2 butterfly network (every order of the two recursive halves, and *)
(* the iterative schedule), Horner and synthetic division, the double-and-add geometric sum, the  *)
(* pairwise product tree (any pairing), and the windowed bucket method for multi-scalar products. *)
(* The inputs explored are also written out and replayed on the real code.                         *)
EXTENDS Arith, TLC, IOUtils, Json
CONSTANTS MaxK, Vals, Xs, MaxM, MaxRoots

VARIABLES job, st
vars == <<job, st>>

Polys(n) == UNION {[1 .. l -> Vals] : l \in 0 .. n}
Jobs ==
  {[op |-> "fft", k |-> k, in |-> v] : k \in {kk \in 0 .. MaxK : kk <= 2}, v \in UNION {[1 .. l -> Vals] : l \in {1, 2, 4}}}
    \cup {[op |-> "factor", p |-> p, x |-> x] : p \in Polys(4) \ {<<>>}, x \in Xs}
    \cup {[op |-> "geosum", x |-> x, m |-> m] : x \in F, m \in 0 .. MaxM}
    \cup {[op |-> "roots", p |-> p] : p \in UNION {[1 .. l -> Xs] : l \in 0 .. MaxRoots}}
    \cup {[op |-> "msm", w |-> w, s |-> s, b |-> b] : w \in 1 .. 3, s \in [1 .. 2 -> 0 .. 15], b \in [1 .. 2 -> Vals]}
    \cup {[op |-> "fft", k |-> 3, in |-> [i \in 1 .. 8 |-> IF i = a THEN x ELSE IF i = b THEN y ELSE 0]] :
            a \in 1 .. 8, b \in 1 .. 8, x \in Vals, y \in Vals}
Legal(j) == j.op = "fft" => Len(j.in) = 2 ^ j.k

Init ==
  /\ job \in {j \in Jobs : Legal(j)}
  /\ st = CASE job.op = "fft" -> [a |-> [i \in 1 .. Len(job.in) |-> job.in[BitRev(i - 1, job.k) + 1]],
                                  done |-> {}]   \* blocks <<level, index>> already combined
            [] job.op = "factor" -> [i |-> Len(job.p), q |-> <<>>, tmp |-> 0]
            [] job.op = "geosum" -> [r |-> job.x, m |-> job.m, block |-> 1, sum |-> 0, step |-> 1]
            [] job.op = "roots" -> [polys |-> [i \in 1 .. Len(job.p) |-> <<Neg(job.p[i]), 1>>]]
            [] job.op = "msm" -> [seg |-> -1, acc |-> 0]

\* Combine block j (0-based) of size 2^l once both halves are combined; blocks may go in any order.
Butterfly(l, j) ==
  LET n == 2 ^ l
      base == j * n
      h == n \div 2
      w == Powers(Omega(l), h)
      a == st.a
  IN /\ l \in 1 .. job.k
     /\ <<l, j>> \notin st.done
     /\ l = 1 \/ {<<l - 1, 2 * j>>, <<l - 1, 2 * j + 1>>} \subseteq st.done
     /\ st' = [a |-> [i \in 1 .. Len(a) |->
                        IF i - 1 \in base .. base + h - 1
                          THEN Add(a[i], Mul(w[i - base], a[i + h]))
                        ELSE IF i - 1 \in base + h .. base + n - 1
                          THEN Sub(a[i - h], Mul(w[i - h - base], a[i]))
                        ELSE a[i]],
               done |-> st.done \cup {<<l, j>>}]
FftStep == job.op = "fft" /\ \E l \in 1 .. MaxK : \E j \in 0 .. 2 ^ (MaxK - 1) - 1 :
              l <= job.k /\ j < 2 ^ (job.k - l) /\ Butterfly(l, j)

FactorStep ==
  /\ job.op = "factor" /\ st.i > 1
  /\ LET lead == Sub(job.p[st.i], st.tmp)
     IN st' = [i |-> st.i - 1, q |-> <<lead>> \o st.q, tmp |-> Mul(lead, Neg(job.x))]

GeoStep ==
  /\ job.op = "geosum" /\ st.m > 0
  /\ st' = [r |-> Mul(st.r, st.r), m |-> st.m \div 2, block |-> Add(st.block, Mul(st.r, st.block)),
            sum |-> IF st.m % 2 = 1 THEN Add(st.sum, Mul(st.step, st.block)) ELSE st.sum,
            step |-> IF st.m % 2 = 1 THEN Mul(st.step, st.r) ELSE st.step]

\* Multiply any two adjacent members together.
RootsStep ==
  /\ job.op = "roots" /\ Len(st.polys) > 1
  /\ \E i \in 1 .. Len(st.polys) - 1 :
       st' = [polys |-> SubSeq(st.polys, 1, i - 1) \o <<PolyMul(st.polys[i], st.polys[i + 1])>>
                          \o SubSeq(st.polys, i + 2, Len(st.polys))]

\* Windows from the most significant down; within a window the buckets are summed by parts.
Window(s, seg) == (s \div (2 ^ (seg * job.w))) % (2 ^ job.w)
Bucket(seg, v) == SumSeq([i \in 1 .. Len(job.s) |-> IF Window(job.s[i], seg) = v THEN job.b[i] ELSE 0])
WindowSum(seg) ==
  LET top == 2 ^ job.w - 1
      r == FoldLeft(LAMBDA acc, v : LET run == Add(acc[1], Bucket(seg, top + 1 - v)) IN <<run, Add(acc[2], run)>>,
                    <<0, 0>>, [v \in 1 .. top |-> v])
  IN r[2]
Segments == (4 + job.w - 1) \div job.w
MsmStep ==
  /\ job.op = "msm" /\ st.seg < Segments - 1
  /\ LET seg == Segments - 2 - st.seg
     IN st' = [seg |-> st.seg + 1, acc |-> Add(Mul(st.acc, 2 ^ job.w), WindowSum(seg))]

Next == (FftStep \/ FactorStep \/ GeoStep \/ RootsStep \/ MsmStep) /\ UNCHANGED job
Spec == Init /\ [][Next]_vars

\* Each machine ends with the defined value, and (partial correctness on the way) keeps its loop invariant.
FftOk == job.op = "fft" =>
  \A d \in st.done \cup {<<0, j>> : j \in 0 .. 2 ^ job.k - 1} :
     LET l == d[1]  n == 2 ^ l  k == job.k
         sub == [i \in 1 .. n |-> job.in[BitRev(d[2], k - l) + (i - 1) * 2 ^ (k - l) + 1]]
         top == \A e \in st.done : ~(e[1] > l /\ e[2] = d[2] \div (2 ^ (e[1] - l)))
     IN top => SubSeq(st.a, d[2] * n + 1, d[2] * n + n) = Dft(sub, Omega(l))
FactorOk == job.op = "factor" => (st.i = 1 => IsQuotient(st.q, job.p, job.x))
GeoOk == job.op = "geosum" => Add(st.sum, Mul(Mul(st.step, st.block), Geosum(st.r, st.m))) = Geosum(job.x, job.m)
RootsOk == job.op = "roots" =>
  FoldLeft(PolyMul, <<1>>, st.polys) = RootsPoly(job.p)
MsmOk == job.op = "msm" => (st.seg = Segments - 1 =>
  st.acc = SumSeq([i \in 1 .. Len(job.s) |-> Mul(job.s[i], job.b[i])]))
Ok == FftOk /\ FactorOk /\ GeoOk /\ RootsOk /\ MsmOk

\* ---------------------------------------------------------------------------------------------
\* Scenarios for the real code: exhaustive over small inputs, in the implementation's field.
CoeffCases ==
  LET lit == {[t |-> t, v |-> v] : t \in Tags, v \in {0, 1, 2, 50, P - 1}}
      pairs == {[op |-> "coeff", lits |-> <<a, b>>,
                 prog |-> <<[o |-> "add", a |-> 1, b |-> 2], [o |-> "mul", a |-> 1, b |-> 2],
                            [o |-> "add", a |-> 3, b |-> 4], [o |-> "mul", a |-> 3, b |-> 4],
                            [o |-> "mul", a |-> 3, b |-> 1], [o |-> "add", a |-> 4, b |-> 2]>>] : a \in lit, b \in lit}
  IN pairs
Scenarios ==
  CoeffCases
    \cup {[op |-> "domain", k |-> k] : k \in 0 .. TwoAdicity + 1}
    \cup {[op |-> "bitreverse", bits |-> [j \in 1 .. 32 |-> IF j = i THEN 1 ELSE 0], l |-> l] : i \in 1 .. 32, l \in 0 .. 32}
    \cup {[op |-> "ell", k |-> k, x |-> x, amount |-> 2 ^ k] : k \in 0 .. TwoAdicity, x \in {x \in F : x % 3 = 0 \/ x \in DomainSet(3)}}
    \cup {[op |-> "factor", p |-> p, x |-> x] : p \in Polys(3), x \in Xs}
    \cup {[op |-> "factor_iter", p |-> p, x |-> x] : p \in Polys(2), x \in Xs}
    \cup {[op |-> "eval", p |-> p, x |-> x] : p \in Polys(3), x \in Xs}
    \cup {[op |-> "geosum", x |-> x, m |-> m] : x \in Xs \cup {5, 22, P - 1}, m \in 0 .. MaxM}
    \cup {[op |-> "roots", p |-> p, threads |-> 1] : p \in UNION {[1 .. l -> Xs] : l \in 0 .. MaxRoots}}
    \cup {[op |-> "dot", p |-> p, q |-> q] : p \in Polys(2), q \in Polys(2)}
    \cup {[op |-> "msm", curve |-> "narrow", threads |-> 1, bases |-> <<k, 3>>, scalars |-> <<<<s>>, <<1>>>>] :
             k \in {0, 1, 78, 5}, s \in 0 .. 78}
\* `ArithGen` runs this under the implementation's field and writes the scenarios.
Emit == ndJsonSerialize(IOEnv.OUT, SetToSeq(Scenarios))
=============================================================================
