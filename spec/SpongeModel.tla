----------------------------- MODULE SpongeModel -----------------------------
(* The machine of Sponge with a permutation that is only a symbol: a state is the sequence of blocks *)
(* that were permuted in. Four sponges go through a history together:                                *)
(*   a -- the history itself;                                                                        *)
(*   b -- the same operations, its own values absorbed;                                              *)
(*   p -- as a, but never saved;                                                                     *)
(* and `told` is what the construction prescribes, computed from the absorbed values and the number  *)
(* of outputs of each phase alone.                                                                   *)
EXTENDS Sponge
CONSTANTS Rates, Depth, Values
VARIABLES rate, a, b, p, diff, phases, outsA, outsB, outsP, n
vars == <<rate, a, b, p, diff, phases, outsA, outsB, outsP, n>>

Pad(q) == q \o [i \in 1 .. rate - Len(q) |-> 0]
PB(st, q) == Append(st, Pad(q))

\* Blocks of a sequence of values.
RECURSIVE Blocks(_)
Blocks(q) == IF Len(q) <= rate THEN <<Pad(q)>> ELSE <<Pad(SubSeq(q, 1, rate))>> \o Blocks(SubSeq(q, rate + 1, Len(q)))
\* A phase is [in, q]: values absorbed, then q outputs. The state the q-th output of phase k is read from
\* has gone through the blocks of all phases so far, and each earlier phase made zero blocks for the
\* outputs beyond its first `rate`.
Zero == Pad(<<>>)
StateAt(ph, k, q) ==
  LET before == FoldLeft(LAMBDA acc, x : acc \o Blocks(x.in) \o [i \in 1 .. (IF x.q = 0 THEN 0 ELSE (x.q - 1) \div rate) |-> Zero],
                         <<>>, SubSeq(ph, 1, k - 1))
  IN  before \o Blocks(ph[k].in) \o [i \in 1 .. (q - 1) \div rate |-> Zero]
Told(ph) ==
  LET of(k) == [q \in 1 .. ph[k].q |-> <<StateAt(ph, k, q), ((q - 1) % rate) + 1>>]
  IN  FoldLeft(LAMBDA acc, k : acc \o of(k), <<>>, [k \in DOMAIN ph |-> k])

Init == /\ rate \in Rates
        /\ a = Fresh(<<>>) /\ b = Fresh(<<>>) /\ p = Fresh(<<>>)
        /\ diff = FALSE /\ phases = <<>> /\ outsA = <<>> /\ outsB = <<>> /\ outsP = <<>> /\ n = 0

DoAbsorb(v, w) ==
  /\ a' = Absorb(PB, rate, a, v) /\ b' = Absorb(PB, rate, b, w) /\ p' = Absorb(PB, rate, p, v)
  /\ diff' = (diff \/ v # w)
  \* After a save without outputs the sponge is in a new phase although nothing came out.
  /\ phases' = IF phases = <<>> \/ a.out >= 0 THEN Append(phases, [in |-> <<v>>, q |-> 0])
               ELSE [phases EXCEPT ![Len(phases)].in = Append(@, v)]
  /\ UNCHANGED <<rate, outsA, outsB, outsP>>
DoSqueeze ==
  /\ SqueezeErr(a) = ""
  /\ LET x == Squeeze(PB, rate, a)
         y == Squeeze(PB, rate, b)
         z == Squeeze(PB, rate, p)
     IN  /\ a' = x /\ b' = y /\ p' = z
         /\ outsA' = Append(outsA, <<x.st, x.out>>)
         /\ outsB' = Append(outsB, <<y.st, y.out, diff>>)
         /\ outsP' = Append(outsP, <<z.st, z.out>>)
  /\ phases' = [phases EXCEPT ![Len(phases)].q = @ + 1]
  /\ UNCHANGED <<rate, diff>>
\* Saving and resuming is transparent when outputs follow: p is left alone and must give the same ones.
DoSave ==
  /\ SaveErr(a) = ""
  /\ a' = SaveResume(PB, a) /\ b' = SaveResume(PB, b)
  /\ UNCHANGED <<rate, p, diff, phases, outsA, outsB, outsP>>
Next == /\ n < Depth /\ n' = n + 1
        /\ \/ \E v, w \in Values : (a.out # 0) /\ DoAbsorb(v, w)
           \/ DoSqueeze
           \/ DoSave

\* What comes out is what the construction prescribes.
Denotes == outsA = Told(phases)
\* No output is handed out twice.
NoReuse == \A i, j \in DOMAIN outsA : i # j => outsA[i] # outsA[j]
\* Outputs depend on everything absorbed before them: they differ as soon as anything differed...
Binding == \A i \in DOMAIN outsA : (outsA[i] = <<outsB[i][1], outsB[i][2]>>) <=> ~outsB[i][3]
\* ... and saving in between changes nothing.
Transparent == outsP = outsA
\* Refusals: exactly in the phases where the operation makes no sense.
Refusals == /\ (SqueezeErr(a) # "") <=> phases = <<>>
            /\ (SaveErr(a) = "squeezing") <=> a.out >= 0
            /\ (SaveErr(a) = "nothing") <=> phases = <<>>

\* Labels: different labels end in different states whatever the rate, and no output can be shared.
Bytes == {0, 1}
Labels == UNION {[1 .. k -> Bytes] : k \in 0 .. 5}
Prefixed(tag) ==
  LET ch == LabelChunks(tag, 2)
      q == <<Len(tag)>> \o [i \in DOMAIN ch |-> ch[i][1] + 256 * ch[i][2]]
  IN  FoldLeft(LAMBDA m, v : Absorb(PB, rate, m, v), Fresh(<<>>), q)
IsPrefixOf(x, y) == Len(x) <= Len(y) /\ SubSeq(y, 1, Len(x)) = x
LabelsSeparate ==
  n = 0 => \A s, t \in Labels : s # t =>
             LET x == Squeeze(PB, rate, Prefixed(s)).st
                 y == Squeeze(PB, rate, Prefixed(t)).st
                 k == IF Len(x) < Len(y) THEN Len(x) ELSE Len(y)
             IN  SubSeq(x, 1, k) # SubSeq(y, 1, k)    \* so no continuation brings them together
=============================================================================
