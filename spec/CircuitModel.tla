---------------------------- MODULE CircuitModel ----------------------------
(* The driver interface as a state machine: a circuit is synthesised one call at a time, entering  *)
(* and leaving routines. Checked here: the machine agrees with the meaning Circuit.tla gives to    *)
(* the program it has read (Agree); every gate and constraint has a place of its own (Placed); and *)
(* the polynomial identity holds for all challenges exactly when the assignment satisfies the      *)
(* circuit (Provable), for every circuit and assignment within the bounds, valid or not.           *)
EXTENDS Circuit, TLC, Json, IOUtils
CONSTANTS MaxOps, MaxDepth, Vals, Wrong, EmitOps
VARIABLES st, stack, body, done, claims, nops
vars == <<st, stack, body, done, claims, nops>>
\* body: the program read so far, as a stack of op lists (innermost last).
K(v) == [x |-> "k", k |-> v]
Top == Len(st.regs) - 1
AllocOps == {[o |-> "alloc", v |-> <<K(v)>>] : v \in Vals}
MulOps == {[o |-> "mul", v |-> <<[x |-> "r", r |-> Top, k |-> 0], K(a), [x |-> "p", r |-> Top, s |-> Top, k |-> w]>>] :
             a \in {2}, w \in Wrong}
           \* c = last^2 + w with b = 2: correct only when last^2 + w = 2 last
GateOps == {[o |-> "gate", v |-> <<K(1), K(0), K(w), K(3)>>] : w \in Wrong}
ZeroOps == {[o |-> "zero", t |-> <<[o |-> "a", r |-> Top], [o |-> "t", r |-> 0, c |-> [t |-> "Arbitrary", v |-> w]]>>] : w \in Wrong}
AddOps == {[o |-> "add", t |-> <<[o |-> "g", c |-> [t |-> "Two", v |-> 0]], [o |-> "s", r |-> Top], [o |-> "a", r |-> 0]>>]}
Simple == AllocOps \cup MulOps \cup GateOps \cup ZeroOps \cup AddOps

Write(b, op) == [b EXCEPT ![Len(b)] = Append(@, op)]
Call(op) == /\ st' = Exec(st, op)
            /\ body' = Write(body, op)
            /\ UNCHANGED <<stack, done, claims>>
Enter(pred) ==
  /\ Len(stack) < MaxDepth
  /\ stack' = Append(stack, [cur |-> st.cur, stash |-> st.stash, regs |-> st.regs, pred |-> pred, in |-> Top])
  /\ st' = [st EXCEPT !.segs = Append(@, EmptySeg), !.cur = Len(st.segs) + 1, !.stash = <<>>,
                      !.regs = <<st.regs[1], st.regs[Top + 1], st.regs[1], st.regs[Top + 1]>>]
  /\ body' = Append(body, <<>>)
  /\ UNCHANGED <<done, claims>>
Outs3 == <<Top, 1, IF Top > 4 THEN 4 ELSE 2>>
Leave ==
  /\ stack # <<>>
  /\ LET f == stack[Len(stack)]
     IN /\ st' = [st EXCEPT !.cur = f.cur, !.stash = f.stash, !.regs = f.regs \o [i \in 1 .. 3 |-> st.regs[Outs3[i] + 1]]]
        /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
        /\ body' = Write(SubSeq(body, 1, Len(body) - 1),
                         [o |-> "call", pred |-> f.pred, ins |-> <<f.in, 0, f.in>>, body |-> body[Len(body)], outs |-> Outs3])
  /\ UNCHANGED <<done, claims>>
Prog(outs) == [body |-> body[1], outs |-> outs]
OutChoices == {<<>>, <<Top>>, <<Top, 0, 1 + (Top \div 2)>>}
Finalize(outs) ==
  /\ stack = <<>> /\ \A i \in 1 .. Len(outs) : outs[i] <= Top
  /\ done' = outs
  /\ claims' \in {[i \in 1 .. Len(outs) |-> Add(st.regs[outs[i] + 1].v, w)] : w \in {0, 1}}
  /\ UNCHANGED <<st, stack, body>>
Open == <<-1>>
Init == st = Start(4) /\ stack = <<>> /\ body = <<<<>>>> /\ done = Open /\ claims = <<>> /\ nops = 0
Next ==
  /\ done = Open
  /\ \/ nops < MaxOps /\ nops' = nops + 1 /\ (\E op \in Simple : Call(op))
     \/ nops < MaxOps /\ nops' = nops + 1 /\ (\E p \in BOOLEAN : Enter(p))
     \/ nops' = nops /\ Leave
     \/ nops' = nops /\ (\E o \in OutChoices : Finalize(o))

---------------------------------------------------------------------------
Finished == done # Open
E == Elab(Prog(done), 4)
Agree == (stack = <<>> /\ ~Finished) => RunBody([body |-> body[1], outs |-> <<>>], 4) = st
\* No wire of another gate sits on a gate's place, no constraint on another's.
Places(e) == {<<s, i, k>> : s \in 1 .. Len(e.segs), i \in 1 .. 2 * N, k \in {"a", "b", "c", "d"}}
Placed == Finished => LET e == E
                          gs == GateStarts(e)
                          ws == {w \in Places(e) : w[2] <= Len(e.segs[w[1]].g)}
                          js == {q \in (1 .. Len(e.segs)) \X (1 .. 4 * N) : q[2] <= Len(e.segs[q[1]].cons)}
  IN /\ Cardinality({XExp(gs[w[1]] + w[2] - 1, w[3]) : w \in ws}) = Cardinality(ws)
     /\ \A w \in ws : XExp(gs[w[1]] + w[2] - 1, w[3]) \in 0 .. 4 * N - 1 \/ Refused(e) # <<>>
     /\ Cardinality({YExp(e, q[1], q[2]) : q \in js}) = Cardinality(js)
     /\ {YExp(e, q[1], q[2]) : q \in js} = 0 .. NumCons(e) - 1
     /\ YExp(e, 1, Len(e.segs[1].cons)) = 0
\* The identity minus k(Y), as polynomials: its coefficients in Z (from the dilated witness and t) and in Y.
SColumn(e, j) ==   \* the coefficient of Y^j of s, as a polynomial in X
  LET gs == GateStarts(e)
      cs == ConsStarts(e)
  IN FoldLeftDomain(LAMBDA acc, s :
        FoldLeftDomain(LAMBDA a2, q : IF YExp(e, s, q) = j
            THEN FoldLeft(LAMBDA a3, t : Bump(a3, WireX(e, gs, t[2]), t[1]), a2, e.segs[s].cons[q].l) ELSE a2,
            acc, e.segs[s].cons), ZeroPoly, e.segs)
ZCoef(e, r, k) ==   \* of Z^k in revdot(r, r(ZX) + t(X, Z))
  LET i == IF k >= 2 * N THEN k - 2 * N ELSE 2 * N - 1 - k
  IN Sub(Mul(r[4 * N - k], r[k + 1]), IF i < N THEN r[i + 1] ELSE 0)
KYCoef(j) == IF j = 0 THEN 1 ELSE IF j <= Len(claims) THEN claims[Len(claims) + 1 - j] ELSE 0
IdentityIsZero(e) ==
  LET r == RX(e)
  IN /\ \A k \in 1 .. 4 * N - 1 : ZCoef(e, r, k) = 0
     /\ Add(ZCoef(e, r, 0), RevDot(r, SColumn(e, 0))) = KYCoef(0)
     /\ \A j \in 1 .. 4 * N - 1 : RevDot(r, SColumn(e, j)) = KYCoef(j)
Provable == Finished => LET e == E IN Refused(e) = <<>> => (IdentityIsZero(e) <=> Satisfied(e, claims))
\* The two ways of writing the identity agree at a point as well.
AtAPoint == Finished => LET e == E IN Refused(e) = <<>> =>
              /\ Identity(e, 3, 5) = IdentityBySatisfaction(e, 3, 5)
              /\ SXY(e, 3, 5) = Eval(SY(e, 5), 3)
=============================================================================
