------------------------------- MODULE FoldGen -------------------------------
(* Arrangements of claims to run on the code.                                                        *)
EXTENDS Fold, IOUtils, Json
CONSTANT Every      \* take one in so many of the larger arrangements

Dims == {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<1, 4>>, <<4, 1>>, <<2, 3>>, <<3, 2>>, <<3, 3>>, <<4, 3>>}
Shapes == {<<"some">>, <<"some", "zero">>, <<"zero", "some", "some">>, <<"full", "some", "zero", "some">>}
Challenges == {<<"r", "r", "r", "r">>, <<"1", "1", "1", "1">>, <<"r", "0", "r", "0">>, <<"0", "r", "r", "r">>, <<"-1", "r", "r", "-1">>,
               <<"r", "r", "0", "r">>, <<"r", "1", "-1", "r">>}
All == SetToSeq({[n |-> d[1], m |-> d[2], k |-> k, shapes |-> s, ch |-> c] :
                 d \in Dims, k \in 0 .. 12, s \in Shapes, c \in Challenges})
Pick == SelectSeq([i \in DOMAIN All |-> [i |-> i, e |-> All[i]]],
                  LAMBDA q : q.e.k <= q.e.n * q.e.m /\ (q.e.n * q.e.m <= 2 \/ q.i % Every = 0))
(* Larger dimensions: full, nearly full, one group full and a bit, half full.                        *)
Big == {<<5, 4>>, <<2, 8>>, <<8, 2>>, <<1, 9>>, <<9, 1>>, <<6, 5>>}
Counts(n, m) == {n * m, n * m - 1, (n - 1) * m, m + 1, (n * m) \div 2} \cap (0 .. n * m)
Bigs == SetToSeq(UNION {{[n |-> d[1], m |-> d[2], k |-> k, shapes |-> s, ch |-> c] :
                         k \in Counts(d[1], d[2]), s \in {<<"some">>, <<"full", "some", "zero", "some">>}, c \in {<<"r", "r", "r", "r">>, <<"r", "1", "-1", "r">>}} : d \in Big})
ASSUME ndJsonSerialize(IOEnv.OUT, [x \in DOMAIN Pick |-> Pick[x].e] \o Bigs)
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
