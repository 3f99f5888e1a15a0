------------------------------- MODULE NestGen -------------------------------
(* Strays to put on the code's polynomials over the other field: alone, on a  *)
(* gate of every region; on every gate of the points; and some that cancel in *)
(* one sum or another.                                                        *)
EXTENDS Nest, IOUtils, Json, Randomization, SequencesExt
CONSTANTS Turns,    \* strays of each polynomial in each region, in so many parts; one part is taken
          Gates     \* in all
Off == TLCEval(RandomElement(0 .. 9999))
S(p, g, w, k) == [poly |-> p, gate |-> g, wire |-> w, k |-> k]
Sc(i, strays) == [base |-> IF i % 3 = 0 THEN "leaf" ELSE "mix", strays |-> strays]
PolySeq == SetToSeq(Polys)
\* The regions: those of the endoscalar, the points and the steps; the ends of each; no one's; and past the bridges.
Regions == << <<0, 0>>, <<1, FirstPoint - 1>>, <<FirstPoint, FirstOwn - 1>>, <<FirstOwn, Gates - 1>> >>
           \o [k \in DOMAIN BridgeSeq |-> <<FirstOf(k), FirstOf(k) + BridgeSize[k] - 1>>]
           \o << <<1, 1>>, <<FirstPoint - 1, FirstPoint - 1>>, <<FirstPoint, FirstPoint>>, <<FirstOwn - 1, FirstOwn - 1>>, <<FirstOwn, FirstOwn>>, <<Gates - 1, Gates - 1>>,
                 <<FirstOf(Len(BridgeSeq)) + 1, FirstOf(Len(BridgeSeq)) + 1>> >>
In(r, n) == Regions[r][1] + (n % (Regions[r][2] - Regions[r][1] + 1))
Alone == LET n == Len(PolySeq) m == Len(Regions)
             all == [i \in 1 .. n * m |-> LET p == PolySeq[1 + (i % n)] r == 1 + ((i \div n) % m) IN
                       Sc(i + Off, <<S(p, In(r, Off * 31 + i * 7919), (Off + i + i \div n) % 4, 1 + (i % 3))>>)]
         IN [j \in 1 .. ((n * m) \div Turns) |-> all[1 + ((Off + j * Turns + j \div 7) % (n * m))]]
\* On the points and the endoscalar, by polynomials that are summed with them or hold them.
Values == [i \in 1 .. FirstOwn - 1 |-> Sc(Off + i, <<S(IF i < FirstPoint THEN "p.nested.endoscalar" ELSE "p.nested.points", i, 1 + 2 * ((Off + i) % 2), 1)>>)]
Some == SelectSeq(Values, LAMBDA s : Turns = 1 \/ s.strays[1].gate >= FirstPoint \/ (Off + s.strays[1].gate) % 8 = 0)
\* What cancels.
Summands(i) == <<"p.nested.endoscalar", "p.nested.points", StepPoly(i)>>
Cancel == [j \in 1 .. 3 * Steps |->
             LET i == j % Steps t == Summands(i) a == 1 + ((j - 1) \div Steps) b == 1 + ((((j - 1) \div Steps) + 1) % 3)
                 g == IF j % 2 = 0 THEN Input(((i * PerStep) + Off) % Inputs) ELSE In(2 + ((Off + j) % 3), Off + j * 911) w == 1 + 2 * (Off % 2) IN
             Sc(Off + j, <<S(t[a], g, w, 1), S(t[b], g, w, 0 - 1)>>)]
Steady == [j \in 1 .. Steps |-> LET g == IF j % 2 = 0 THEN Result(((j + Off) % Steps)) ELSE In(3, Off + j * 77) w == 1 + 2 * (j % 2) IN
             Sc(Off + j, <<S(StepPoly(j - 1), g, w, 1), S(StepPoly(j % Steps), g, w, 0 - 1)>>)]
Bridged == [k \in DOMAIN BridgeSeq |-> LET q == 1 + (k % Len(BridgeSeq)) g == In(4 + k, Off + k) IN
             Sc(Off + k, <<S(BridgePoly(k), g, 1, 1), S(BridgePoly(q), g, 1, 0 - 1)>>)]
None == <<Sc(0, <<>>), Sc(1, <<>>)>>
ASSUME ndJsonSerialize(IOEnv.OUT, None \o Cancel \o Steady \o Bridged \o Some \o Alone)
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
