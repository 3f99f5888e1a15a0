------------------------------- MODULE CapGen --------------------------------
(* Circuits at the edge of what fits: gates, constraints, both, in one segment or spread over some. *)
EXTENDS Circuit, TLC, Json, IOUtils
CONSTANTS Around
VARIABLE x
K(v) == [x |-> "k", k |-> v]
MulOp(r) == [o |-> "mul", v |-> <<[x |-> "r", r |-> r, k |-> 0], K(3), [x |-> "r", r |-> r, k |-> 5]>>]
Gate == [o |-> "gate", v |-> <<K(5), K(0), K(0), K(4)>>]
Alloc == [o |-> "alloc", v |-> <<K(7)>>]
Zero(r) == [o |-> "zero", t |-> <<[o |-> "s", r |-> r]>>]
Rep(op, n) == [i \in 1 .. n |-> op]
Call(pred, body) == [o |-> "call", pred |-> pred, ins |-> <<0, 0, 0>>, body |-> body, outs |-> <<0, 1, 2>>]
Prog(body, outs) == [prog |-> [body |-> body, outs |-> outs]]
Deltas == 0 .. 2 * Around
\* k operations, in a place of their own, or split over calls.
Place(how, op, k) ==
  CASE how = "flat" -> Rep(op, k)
    [] how = "call" -> <<Call(FALSE, Rep(op, k))>>
    [] how = "pred" -> <<Call(TRUE, Rep(op, k \div 2))>> \o Rep(op, k - (k \div 2))
    [] how = "deep" -> <<Call(FALSE, Rep(op, k \div 3) \o <<Call(TRUE, Rep(op, k \div 3))>>)>> \o Rep(op, k - 2 * (k \div 3))
Hows == {"flat", "call", "pred", "deep"}
Outs == {<<>>, <<0>>, <<0, 0>>}
Gates == {Prog(Place(h, op, N + d - Around), o) : h \in Hows, op \in {MulOp(0), Gate}, d \in Deltas, o \in Outs}
Allocs == {Prog(Place(h, Alloc, 2 * N + d - 2 * Around), <<0>>) : h \in Hows, d \in 0 .. 4 * Around}
Constr == {Prog(Place(h, Zero(0), 4 * N - 1 + d - Around), o) : h \in Hows, d \in Deltas, o \in Outs}
Both == {Prog(Place(h, MulOp(0), N + d - Around) \o Place(h, Zero(0), 4 * N + f - Around), <<0>>) : h \in {"flat", "call"}, d, f \in Deltas}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Gates \cup Allocs \cup Constr \cup Both))
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
