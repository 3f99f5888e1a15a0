---------------------------- MODULE StagedModel -----------------------------
(* For every chain of stages that fits: the slots partition the gates; a mask is satisfied at every *)
(* challenge exactly by assignments that stay inside the slot; and the stage polynomials and the    *)
(* final polynomial sum to the witness of the whole circuit, each passing its own mask.             *)
EXTENDS Staged
CONSTANTS MaxStages, MaxValues
VARIABLES stages, assign   \* assign: a 0/1 assignment of all wires, as a polynomial
vars == <<stages, assign>>
Fits(ss) == FirstFree(ss) <= N
Init == stages = <<>> /\ assign \in [1 .. 4 * N -> {0, 1}]
Next == /\ Len(stages) < MaxStages
        /\ \E v \in 0 .. MaxValues, w \in 0 .. MaxValues :
             /\ w <= v /\ (w < v => v - w = 1)
             /\ LET s == [values |-> v, wires |-> w, vals |-> [i \in 1 .. w |-> (3 * i + Len(stages) + 1) % P], mode |-> IF v % 2 = 0 THEN "enforced" ELSE "unenforced"]
                IN Fits(Append(stages, s)) /\ stages' = Append(stages, s)
        /\ UNCHANGED assign
Spec == Init /\ [][Next]_vars

Slot(k) == Skip(stages, k) .. Skip(stages, k) + NumG(stages[k].values) - 1
FinalSlot == FirstFree(stages) .. N - 1
GateOf(e) == CHOOSE i \in 0 .. N - 1 : \E k \in {"a", "b", "c", "d"} : TraceExp(i, k) = e
Partition == /\ \A i, j \in 1 .. Len(stages) : i # j => Slot(i) \cap Slot(j) = {}
             /\ UNION {Slot(k) : k \in 1 .. Len(stages)} \cup FinalSlot \cup {0} = 0 .. N - 1
             /\ \A k \in 1 .. Len(stages) : Slot(k) \cap FinalSlot = {} /\ 0 \notin Slot(k)
Inside(r, slot) == \A e \in 0 .. 4 * N - 1 : GateOf(e) \notin slot \cup {0} => r[e + 1] = 0
Passes(r, skip, num) == \A y \in F : RevDot(r, MaskPoly(skip, num, y)) = 0
\* P exceeds the degree in Y, so passing at every challenge means every masked wire is zero.
ASSUME P > 4 * N
MaskExact == /\ \A k \in 1 .. Len(stages) : Passes(assign, Skip(stages, k), NumG(stages[k].values)) <=> Inside(assign, Slot(k))
             /\ Passes(assign, FirstFree(stages), N - FirstFree(stages)) <=> Inside(assign, FinalSlot)
Circ == [stages |-> stages, prog |-> [body |-> IF FirstFree(stages) < N THEN <<[o |-> "mul", v |-> <<[x |-> "r", r |-> 0, k |-> 2], [x |-> "r", r |-> 0, k |-> 2], [x |-> "k", k |-> 9]>>]>> ELSE <<>>, outs |-> <<0>>]]
Sums == LET full == RX(StagedElab(Circ, 5 + Sum([i \in 1 .. Len(stages) |-> i]), TRUE))
            fin == RX(StagedElab(Circ, 5, FALSE))
            parts == [k \in 1 .. Len(stages) |-> StagePoly(stages, k, k)]
        IN /\ FoldLeft(PolyAdd, fin, parts) = full
           /\ Inside(fin, FinalSlot)
           /\ \A k \in 1 .. Len(stages) : Inside(parts[k], Slot(k))
=============================================================================
