------------------------------ MODULE SpongeGen ------------------------------
(* Histories to run on the code. A transcript's history keeps to what its types allow: once resumed  *)
(* it is only squeezed from until it is turned back into a full one.                                 *)
EXTENDS Sponge, IOUtils, Json, Randomization
CONSTANTS Depth,     \* all histories of the plain operations up to this length
          Depth2,    \* and all legal transcript histories up to this length
          Sample     \* how many long ones per rate

Op(o, i) == [o |-> o, i |-> i]
A == Op("absorb", 0)
S == Op("squeeze", 0)
V == Op("save", 0)
Words(alpha, n) == UNION {[1 .. k -> alpha] : k \in 1 .. n}
Rep(op, n) == [i \in 1 .. n |-> op]

\* How a transcript's history may go on: "" full, "r" resumed.
Mode(ops) == FoldLeft(LAMBDA m, op : CASE op.o = "save" -> "r" [] op.o = "into" -> "" [] op.o = "goto" -> "" [] OTHER -> m, "", ops)
Legal(ops) ==
  \* A label was absorbed, so a save is refused only right after outputs.
  LET ok(acc, op) ==
        CASE ~acc.ok -> acc
          [] op.o = "absorb" -> [acc EXCEPT !.ok = acc.mode = "", !.sq = FALSE]
          [] op.o = "squeeze" -> [acc EXCEPT !.sq = TRUE]
          [] op.o = "save" -> [acc EXCEPT !.ok = acc.mode = "", !.mode = IF acc.sq THEN "" ELSE "r"]
          [] op.o = "into" -> [acc EXCEPT !.ok = acc.mode = "r" /\ acc.sq, !.mode = ""]
          [] op.o = "fork" -> [acc EXCEPT !.ok = acc.mode = "", !.slots = (op.i :> acc.sq) @@ acc.slots]
          [] op.o = "goto" -> [acc EXCEPT !.ok = op.i \in DOMAIN acc.slots, !.mode = "",
                                          !.sq = op.i \in DOMAIN acc.slots /\ acc.slots[op.i]]
  IN  FoldLeft(ok, [ok |-> TRUE, mode |-> "", sq |-> FALSE, slots |-> <<>>], ops)
Into == Op("into", 0)
\* A history whose last operation is an `into` that is refused also counts.
LegalT(ops) ==
  IF ops = <<>> THEN FALSE
  ELSE IF ops[Len(ops)] = Into THEN LET b == Legal(SubSeq(ops, 1, Len(ops) - 1)) IN b.ok /\ b.mode = "r"
  ELSE Legal(ops).ok
ForkFirst(ops) == Legal(SelectSeq(ops, LAMBDA o : o.o \in {"fork", "goto"})).ok   \* a bare sponge has no other restriction

Phase(a, s, v) == Rep(A, a) \o Rep(V, v) \o Rep(S, s)
Long(rate) ==
  LET sizes == {0, 1, rate - 1, rate, rate + 1, 2 * rate, 2 * rate + 1}
      outs == {0, 1, rate, rate + 1, 2 * rate + 1}
      all == sizes \X outs \X {0, 1} \X sizes \X outs \X {0, 1} \X {0, 1, rate + 1}
      pick == RandomSubset(Sample, all)
      \* sponge, then the same made legal for a transcript
      ops(q) == Phase(q[1], q[2], q[3]) \o Phase(q[4], q[5], q[6]) \o Rep(A, q[7]) \o Rep(S, q[7])
      tops(q) == Phase(q[1], IF q[3] = 1 THEN q[2] + 1 ELSE q[2], q[3]) \o Rep(Into, q[3])
                 \o Rep(A, IF q[3] = 1 \/ q[2] > 0 THEN q[4] + 1 ELSE q[4])
                 \o Rep(V, q[6]) \o Rep(S, q[5] + q[6]) \o Rep(Into, q[6]) \o Rep(A, q[7]) \o Rep(S, q[7])
      forks(q) == Phase(q[1], q[2], 0) \o <<Op("fork", 1)>> \o Phase(q[4], q[5], q[3]) \o <<Op("goto", 1)>> \o Phase(q[7], 2, 0)
      tforks(q) == Phase(q[1], q[2], 0) \o <<Op("fork", 1)>> \o Phase(q[4] + 1, q[5] + 1, q[3]) \o <<Op("goto", 1)>> \o Phase(q[7], 2, 0)
  IN  {<<"sponge", ops(q)>> : q \in pick} \cup {<<"transcript", tops(q)>> : q \in pick}
      \cup {<<"sponge", forks(q)>> : q \in pick} \cup {<<"transcript", tforks(q)>> : q \in pick}

Short(rate) ==
  {<<"sponge", w>> : w \in Words({A, S, V}, Depth)}
  \cup {<<"transcript", w>> : w \in {w \in Words({A, S, V, Into}, Depth2) : LegalT(w)}}

Circuits(rate) ==
  IF rate > 2 THEN {}
  ELSE {<<"circuit", w>> : w \in {<<A, S>>, <<A, S, S>>, <<A, A, S>>, <<A, V>>, <<A, V, S>>, <<A, S, A, S>>, <<A, A, V, S, S>>}}

Scenarios ==
  UNION {{[kind |-> q[1], rate |-> rate, ops |-> q[2]] : q \in {q \in Short(rate) \cup Long(rate) \cup Circuits(rate) : q[2] # <<>>}}
         : rate \in 1 .. 4}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Scenarios))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
