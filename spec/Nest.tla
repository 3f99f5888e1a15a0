-------------------------------- MODULE Nest --------------------------------
(* The circuits over the other curve's field: a point is multiplied by an     *)
(* endoscalar and another added to it, again and again, some at each step;    *)
(* and the bridges, which hold commitments. Each polynomial has gates of its  *)
(* own. A step is run on the sum of its own polynomial and those that hold    *)
(* the endoscalar and the points; masks see to it that each polynomial is     *)
(* zero but on its own gates.                                                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Bits == 128       \* of the endoscalar
Inputs == 36      \* points added, to an initial one
PerStep == 4
Steps == (Inputs + PerStep - 1) \div PerStep
Digit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
Num(i) == IF i < 10 THEN Digit[1 + i] ELSE Digit[1 + (i \div 10)] \o Digit[1 + (i % 10)]

StepPoly(i) == "p.nested.step." \o Num(i)
StepPolys == {StepPoly(i) : i \in 0 .. Steps - 1}
\* Bridges, one after the other, and how many points each holds.
BridgeSeq == <<"preamble", "s_prime", "inner_error", "outer_error", "ab", "query", "f", "eval">>
BridgeSize == <<13, 2, 2, 1, 2, 2, 1, 1>>
BridgePoly(k) == BridgeSeq[k] \o ".bridge"
BridgePolys == {BridgePoly(k) : k \in DOMAIN BridgeSeq}
Polys == {"p.nested.endoscalar", "p.nested.points"} \cup StepPolys \cup BridgePolys

(* A gate takes two values. Gate 0 is nobody's.                               *)
PointGates == 1 + Inputs + Steps
FirstPoint == 1 + Bits \div 2
FirstOwn == FirstPoint + PointGates
RECURSIVE FirstOf(_)
FirstOf(k) == IF k = 1 THEN 1 ELSE FirstOf(k - 1) + BridgeSize[k - 1]
Bridge(p) == CHOOSE k \in DOMAIN BridgeSeq : BridgePoly(k) = p
Own(p, g) == CASE p = "p.nested.endoscalar" -> g \in 1 .. FirstPoint - 1
               [] p = "p.nested.points" -> g \in FirstPoint .. FirstOwn - 1
               [] p \in StepPolys -> g >= FirstOwn
               [] p \in BridgePolys -> LET k == Bridge(p) IN g >= FirstOf(k) /\ g < FirstOf(k) + BridgeSize[k]
MaskOf(p) == CASE p = "p.nested.endoscalar" -> "EndoscalarStage"
               [] p = "p.nested.points" -> "PointsStage"
               [] p \in StepPolys -> "PointsFinalStaged"
               [] p \in BridgePolys -> <<"BridgePreamble", "BridgeSPrime", "BridgeInnerError", "BridgeOuterError", "BridgeAB", "BridgeQuery",
                                         "BridgeF", "BridgeEval">>[Bridge(p)]
Masks == {MaskOf(p) : p \in Polys}
StepClaim(i) == "EndoscalingStep(" \o Num(i) \o ")"
StepClaims == {StepClaim(i) : i \in 0 .. Steps - 1}

(* The gates whose values a step goes by: the endoscalar's, the point it      *)
(* starts from, those it adds, and the one it comes to.                       *)
Input(i) == FirstPoint + 1 + i
Result(i) == FirstPoint + 1 + Inputs + i
UsedBy(i) == (1 .. FirstPoint - 1) \cup {IF i = 0 THEN FirstPoint ELSE Result(i - 1), Result(i)}
             \cup {Input(j) : j \in {j \in 0 .. Inputs - 1 : j \div PerStep = i}}
Summed(i) == {"p.nested.endoscalar", "p.nested.points", StepPoly(i)}

(* Something is put on gates: strays, each on a wire of a gate of some        *)
(* polynomial, as multiples of one amount.                                    *)
RECURSIVE Total(_)
Total(ks) == IF ks = <<>> THEN 0 ELSE ks[1] + Total(Tail(ks))
AmountOn(strays, p, g, w) == Total([j \in 1 .. Len(strays) |-> IF strays[j].poly = p /\ strays[j].gate = g /\ strays[j].wire = w THEN strays[j].k ELSE 0])
Places(strays) == {<<strays[j].gate, strays[j].wire>> : j \in DOMAIN strays}
BrokenMasks(strays) == {MaskOf(p) : p \in {p \in {strays[j].poly : j \in DOMAIN strays} :
                           \E gw \in Places(strays) : gw[1] # 0 /\ ~Own(p, gw[1]) /\ AmountOn(strays, p, gw[1], gw[2]) # 0}}
\* What a step's sum has more than it had.
Excess(strays, i) == {gw \in Places(strays) :
                        Total([j \in 1 .. Len(strays) |-> IF strays[j].poly \in Summed(i) /\ <<strays[j].gate, strays[j].wire>> = gw
                                                          THEN strays[j].k ELSE 0]) # 0}
\* Values are held by the second and the last wire of a gate.
Held(gw) == gw[1] \in 1 .. FirstOwn - 1 /\ gw[2] \in {1, 3}
\* A step fails if a value it goes by is another; not if it's only values it does not go by; else it may.
Fails(strays) == {StepClaim(i) : i \in {i \in 0 .. Steps - 1 : \E gw \in Excess(strays, i) : Held(gw) /\ gw[1] \in UsedBy(i)}}
Holds(strays) == {StepClaim(i) : i \in {i \in 0 .. Steps - 1 : \A gw \in Excess(strays, i) : Held(gw) /\ gw[1] \notin UsedBy(i)}}
\* On bridges, the commitments show it.
Uncommitted == Polys \ BridgePolys
AnyExcess(strays) == {strays[j].poly : j \in {j \in DOMAIN strays : AmountOn(strays, strays[j].poly, strays[j].gate, strays[j].wire) # 0}}
=============================================================================
