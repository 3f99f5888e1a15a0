------------------------------- MODULE Staged -------------------------------
(* Multi-stage circuits. Each stage of a chain declares how many values it has; it owns the gates  *)
(* for them, two values (b, d) to a gate, after those of its ancestors. A stage's polynomial holds *)
(* its values there and nothing elsewhere; the circuit's own (final) polynomial holds the rest.    *)
EXTENDS Registry

NumG(values) == (values + 1) \div 2
\* The first gate of stage k (gate 0 is the SYSTEM gate).
Skip(stages, k) == 1 + Sum([i \in 1 .. k - 1 |-> NumG(stages[i].values)])
FirstFree(stages) == Skip(stages, Len(stages) + 1)

\* A stage's polynomial.
StagePoly(stages, k, alpha) ==
  LET s == stages[k]
      put(poly, i) == Bump(poly, TraceExp(Skip(stages, k) + (i - 1) \div 2, IF i % 2 = 1 THEN "b" ELSE "d"), s.vals[i])
  IN FoldLeft(put, Bump(ZeroPoly, TraceExp(0, "d"), alpha), [i \in 1 .. s.wires |-> i])

\* The circuit: all stages' wires are allocated, those of the stages it uses are its registers, stages
\* it enforces are constrained (here: sum of i times wire i is zero), and its program follows.
ShapeOK(stages) == \A k \in 1 .. Len(stages) : stages[k].wires <= stages[k].values
ShapeError(stages) ==
  LET k == CHOOSE k \in 1 .. Len(stages) : /\ stages[k].wires > stages[k].values
                                           /\ \A j \in 1 .. k - 1 : stages[j].wires <= stages[j].values
  IN "gates " \o ToString(NumG(stages[k].values))
StageAllocs(s, full) ==
  [i \in 1 .. 2 * NumG(s.values) |->
     [o |-> "alloc", v |-> <<[x |-> "k", k |-> IF full /\ i <= s.wires THEN s.vals[i] ELSE 0]>>]]
Used(s) == s.mode # "skip"
Loaded(c, alpha, full) ==
  LET stages == c.stages
      st == FoldLeft(LAMBDA a, s : FoldLeft(Exec, a, StageAllocs(s, full)), Start(alpha), stages)
      base(k) == 1 + Sum([i \in 1 .. k - 1 |-> 2 * NumG(stages[i].values)])
      regsOf(k) == [i \in 1 .. stages[k].wires |-> [l |-> st.regs[base(k) + i].l, v |-> stages[k].vals[i]]]
      regs == FoldLeftDomain(LAMBDA acc, k : IF Used(stages[k]) THEN acc \o regsOf(k) ELSE acc, <<st.regs[1]>>, stages)
      first(k) == 1 + Sum([i \in 1 .. k - 1 |-> IF Used(stages[i]) THEN stages[i].wires ELSE 0])
      consistency(k) == [o |-> "zero", t |-> [i \in 1 .. stages[k].wires |->
                            [o |-> "t", r |-> first(k) + i - 1, c |-> [t |-> "Arbitrary", v |-> i]]]]
  IN FoldLeftDomain(LAMBDA a, k : IF stages[k].mode = "enforced" THEN Exec(a, consistency(k)) ELSE a,
                    [st EXCEPT !.regs = regs], stages)
StagedRun(c, alpha, full) == FoldLeft(Exec, Loaded(c, alpha, full), c.prog.body)
StagedElab(c, alpha, full) == Finish(StagedRun(c, alpha, full), c.prog.outs)

\* Bonding: stage wires, allocations and linear constraints only.
Bonds(e) == ~e.st.one /\ e.st.nmul = 0
            /\ \A j \in e.own[1] + 1 .. Len(e.segs[1].cons) - 1 : \A x \in Range(e.segs[1].cons[j].l) : x[2] # One
NoOneX(poly) == [poly EXCEPT ![1] = 0]                    \* s(x, Y) without the ONE constraint
NoOneY(poly) == Bump(poly, 2 * N, P - 1)                   \* s(X, y) without it
=============================================================================
