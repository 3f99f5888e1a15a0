------------------------------ MODULE GadgetAdv -----------------------------
(* A prover who may put anything on the wires of the constraint systems recorded from the code.      *)
(*                                                                                                  *)
(* Each record has base wires (0 is the constant one; then free wires and gates a, b, c, d with      *)
(* a*b = c and c*d = 0), linear constraints that must vanish, and claims: what the gadget that       *)
(* allocated those wires promises. The prover assigns one wire per step. Values that nothing later   *)
(* looks at are forgotten, so that assignments which only differ there are one state. Whatever       *)
(* satisfying assignment the prover completes, no claim may be false in it.                          *)
EXTENDS Gadget, IOUtils, Json
CONSTANTS Part, Parts            \* only systems whose number is Part modulo Parts
Trace == ndJsonDeserialize(IOEnv.TRACE)

\* The plan that comes with a record only says when to look at what: after which wire a constraint
\* or claim has all its wires, and when a value is no longer needed.
Last0(s) == Len(s.base) - 1

VARIABLES sys,    \* which recorded system
          w,      \* wires assigned so far
          val,    \* the values still of interest
          bad     \* some claim is already false
vars == <<sys, w, val, bad>>

Get(f, i) == IF i = 0 THEN 1 ELSE f[i]
Row(row, f) == FoldLeft(LAMBDA acc, t : (acc + t[2] * Get(f, t[1])) % P, 0, row)
\* The value of wire i that makes the row vanish, everything else in it being assigned.
Solve(row, f, i) ==
  LET rest == FoldLeft(LAMBDA acc, t : IF t[1] = i THEN acc ELSE (acc + t[2] * Get(f, t[1])) % P, 0, row)
      c == FoldLeft(LAMBDA acc, t : IF t[1] = i THEN (acc + t[2]) % P ELSE acc, 0, row)
  IN  IF c = 0 THEN (IF rest = 0 THEN F ELSE {}) ELSE {Mul(Neg(rest), Inv(c))}
SetOf(q) == {q[i] : i \in DOMAIN q}
Options(s, p, i, f) ==
  LET kind == s.base[i + 1]
      free == CASE kind = "c" -> {Mul(f[i - 2], f[i - 1])}
                [] kind = "d" -> IF ~\E j \in DOMAIN p.used : p.used[j] = i \/ f[i - 1] # 0 THEN {0} ELSE F
                [] OTHER -> F
      con == SetOf(p.con[i + 1])
  IN  IF con = {} THEN free
      ELSE LET one == Solve(s.cons[CHOOSE j \in con : TRUE], f, i) \cap free
           IN  {v \in one : \A j \in con : Row(s.cons[j], (i :> v) @@ f) = 0}
ClaimOf(s, j, f) ==
  LET c == s.claims[j]
  IN  [o |-> c.o, k |-> c.k,
       a |-> [x \in DOMAIN c.a |-> [y \in DOMAIN c.a[x] |-> Row(c.a[x][y], f)]],
       r |-> [y \in DOMAIN c.r |-> Row(c.r[y], f)]]

Init == /\ sys \in {i \in DOMAIN Trace : i % Parts = Part % Parts}
        /\ w = 0
        /\ val = <<>>
        /\ bad = (\E j \in SetOf(Trace[sys].plan.claim[1]) : ~Rel(ClaimOf(Trace[sys], j, <<>>), Trace[sys]))
        /\ \A j \in SetOf(Trace[sys].plan.con[1]) : Row(Trace[sys].cons[j], <<>>) = 0
Next ==
  LET s == Trace[sys]
      p == s.plan
      i == w + 1
  IN  /\ w < Last0(s)
      /\ \E v \in Options(s, p, i, val) :
           LET f == (i :> v) @@ val
           IN  /\ bad' = (bad \/ \E j \in SetOf(p.claim[i + 1]) : ~Rel(ClaimOf(s, j, f), s))
               /\ val' = TLCEval([x \in DOMAIN f \ SetOf(p.drop[i + 1]) |-> f[x]])
               /\ w' = i
               /\ UNCHANGED sys

Sound == w = Last0(Trace[sys]) => ~bad
=============================================================================
