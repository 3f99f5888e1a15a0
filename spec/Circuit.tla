------------------------------ MODULE Circuit ------------------------------
(* A circuit is a program over registers: gates, paired allocations, virtual wires, linear         *)
(* constraints, constants and (nested) routine calls, followed by its public outputs. This module  *)
(* says what such a program means: its segments in depth-first order, the gates and constraints of *)
(* each, where each of them sits in the polynomial encoding, which assignments satisfy it, and the *)
(* polynomials s(X,Y), r(X), k(Y), t(X,Z) that encode it.                                          *)
EXTENDS Field
CONSTANT N    \* gates per circuit (the rank's n); polynomials have 4N coefficients

---------------------------------------------------------------------------
(* Elaboration.                                                            *)
CoeffVal(c) == CASE c.t = "Zero" -> 0
                 [] c.t = "One" -> 1 % P
                 [] c.t = "Two" -> 2 % P
                 [] c.t = "NegativeOne" -> P - 1
                 [] c.t = "Arbitrary" -> c.v % P
                 [] c.t = "NegativeArbitrary" -> Neg(c.v)

\* A wire is <<segment, gate, kind>> (gates from 0), a linear form a sequence of <<coefficient, wire>>.
One == <<1, 0, "b">>
ScaleLin(l, c) == TLCEval([i \in 1 .. Len(l) |-> <<Mul(l[i][1], c), l[i][2]>>])

\* The elements <<coefficient, register>> of a linear-combination expression, gains applied.
LinTerms(ts) ==
  FoldLeft(LAMBDA acc, t :
    CASE t.o = "g" -> [acc EXCEPT !.gain = Mul(@, CoeffVal(t.c))]
      [] t.o = "t" -> [acc EXCEPT !.l = Append(@, <<Mul(CoeffVal(t.c), acc.gain), t.r>>)]
      [] t.o = "a" -> [acc EXCEPT !.l = Append(@, <<acc.gain, t.r>>)]
      [] t.o = "s" -> [acc EXCEPT !.l = Append(@, <<Neg(acc.gain), t.r>>)]
      [] t.o = "x" -> [acc EXCEPT !.l = @ \o [i \in 1 .. Len(t.l) |-> <<Mul(CoeffVal(t.l[i].c), acc.gain), t.l[i].r>>]],
    [gain |-> 1 % P, l |-> <<>>], ts).l

\* The linear form and the value of such an expression over registers (numbered from 0).
Combine(ts, regs) ==
  FoldLeft(LAMBDA acc, e : [l |-> acc.l \o ScaleLin(regs[e[2] + 1].l, e[1]),
                            v |-> Add(acc.v, Mul(e[1], regs[e[2] + 1].v))],
           [l |-> <<>>, v |-> 0], LinTerms(ts))
WitVal(x, regs) == CASE x.x = "k" -> x.k % P
                     [] x.x = "r" -> (regs[x.r + 1].v + x.k) % P
                     [] x.x = "p" -> (regs[x.r + 1].v * regs[x.s + 1].v + x.k) % P

EmptySeg == [g |-> <<>>, cons |-> <<>>]
\* st: segs, the segment and the stashed d wire of the current scope, its registers, the calls of
\* gate/alloc/enforce_zero the program itself made, and whether it referred to the wire ONE.
WithWire(st, w, v) == [st EXCEPT !.regs = Append(@, [l |-> <<<<1 % P, w>>>>, v |-> v])]
AddGate(st, a, b, c, d) == [st EXCEPT !.segs[st.cur].g = Append(@, <<a, b, c, d>>)]
NextGate(st) == Len(st.segs[st.cur].g)

RECURSIVE Exec(_, _)
ExecCall(st, op) ==
  LET k == Len(st.segs) + 1
      inner == [st EXCEPT !.segs = Append(@, EmptySeg), !.cur = k, !.stash = <<>>,
                          !.regs = <<[l |-> <<<<1 % P, One>>>>, v |-> 1 % P]>>
                                   \o [i \in 1 .. 3 |-> st.regs[op.ins[i] + 1]]]
      done == FoldLeft(Exec, inner, op.body)
  IN [done EXCEPT !.cur = st.cur, !.stash = st.stash,
                  !.regs = st.regs \o [i \in 1 .. 3 |-> done.regs[op.outs[i] + 1]]]
Exec(st, op) ==
  LET v(i) == WitVal(op.v[i], st.regs)
      g == NextGate(st)
      w(k) == <<st.cur, g, k>>
      hasOne(ts) == \E t \in Range(LinTerms(ts)) : \E x \in Range(st.regs[t[2] + 1].l) : x[2] = One
  IN CASE op.o = "gate" ->
            LET s1 == [AddGate(st, v(1), v(2), v(3), v(4)) EXCEPT !.nmul = @ + 1]
            IN WithWire(WithWire(WithWire(WithWire(s1, w("a"), v(1)), w("b"), v(2)), w("c"), v(3)), w("d"), v(4))
       [] op.o = "mul" ->
            LET s1 == [AddGate(st, v(1), v(2), v(3), 0) EXCEPT !.nmul = @ + 1]
            IN WithWire(WithWire(WithWire(s1, w("a"), v(1)), w("b"), v(2)), w("c"), v(3))
       [] op.o = "alloc" ->
            IF st.stash # <<>>
            THEN LET h == st.stash[1]
                     s1 == [st EXCEPT !.segs[st.cur].g[h + 1][4] = v(1), !.stash = <<>>, !.nalloc = @ + 1]
                 IN WithWire(s1, <<st.cur, h, "d">>, v(1))
            ELSE LET s1 == [AddGate(st, 0, v(1), 0, 0) EXCEPT !.stash = <<g>>, !.nalloc = @ + 1]
                 IN WithWire(s1, w("b"), v(1))
       [] op.o = "add" -> [st EXCEPT !.regs = Append(@, Combine(op.t, st.regs)), !.one = @ \/ hasOne(op.t)]
       [] op.o = "const" -> [st EXCEPT !.one = TRUE, !.regs = Append(@, [l |-> <<<<CoeffVal(op.c), One>>>>, v |-> CoeffVal(op.c)])]
       [] op.o = "zero" -> [st EXCEPT !.segs[st.cur].cons = Append(@, Combine(op.t, st.regs)), !.nzero = @ + 1, !.one = @ \/ hasOne(op.t)]
       [] op.o = "call" -> ExecCall(st, op)

\* The whole program. Gate 0 of the root is the SYSTEM gate (0, 1, 0, alpha).
Start(alpha) ==
  [segs |-> <<[g |-> <<<<0, 1 % P, 0, alpha>>>>, cons |-> <<>>]>>, cur |-> 1, stash |-> <<>>,
   regs |-> <<[l |-> <<<<1 % P, One>>>>, v |-> 1 % P]>>, nmul |-> 0, nalloc |-> 0, nzero |-> 0, one |-> FALSE]
RunBody(prog, alpha) == FoldLeft(Exec, Start(alpha), prog.body)

\* Segments with the public bindings and, last, the ONE constraint.
Finish(st, outIdx) ==
  LET outs == [i \in 1 .. Len(outIdx) |-> st.regs[outIdx[i] + 1]]
      own == [i \in 1 .. Len(st.segs) |-> Len(st.segs[i].cons)]
  IN [segs |-> [st.segs EXCEPT ![1].cons = @ \o outs \o <<[l |-> <<<<1 % P, One>>>>, v |-> 1 % P]>>],
      outs |-> [i \in 1 .. Len(outs) |-> outs[i].v], own |-> own, st |-> st]
Elab(prog, alpha) == Finish(RunBody(prog, alpha), prog.outs)

Sum(s) == FoldLeft(+, 0, s)
NumGates(e) == Sum([i \in 1 .. Len(e.segs) |-> Len(e.segs[i].g)])
NumCons(e) == Sum([i \in 1 .. Len(e.segs) |-> Len(e.segs[i].cons)])
\* The last coefficient in Y is reserved for the registry key.
Refused(e) == IF NumCons(e) >= 4 * N THEN <<"constraints", 4 * N - 1>>
              ELSE IF NumGates(e) > N THEN <<"gates", N>> ELSE <<>>

---------------------------------------------------------------------------
(* Placement.                                                              *)
GateStart(e, s) == Sum([i \in 1 .. s - 1 |-> Len(e.segs[i].g)])
ConsStart(e, s) == Sum([i \in 1 .. s - 1 |-> Len(e.segs[i].cons)])
\* The exponent of Y of constraint j (from 1) of segment s: the last one emitted comes first.
YExp(e, s, j) == ConsStart(e, s) + Len(e.segs[s].cons) - j
\* The exponents of X: in the wiring polynomial, and (mirrored) in the witness polynomial.
XExp(i, k) == CASE k = "a" -> 2 * N - 1 - i
                [] k = "b" -> 2 * N + i
                [] k = "c" -> 4 * N - 1 - i
                [] k = "d" -> i
Kinds == <<"a", "b", "c", "d">>
TraceExp(i, k) == 4 * N - 1 - XExp(i, k)
WireX(e, starts, w) == XExp(starts[w[1]] + w[2], w[3])
GateStarts(e) == TLCEval([s \in 1 .. Len(e.segs) |-> GateStart(e, s)])
ConsStarts(e) == TLCEval([s \in 1 .. Len(e.segs) |-> ConsStart(e, s)])

---------------------------------------------------------------------------
(* Polynomials, as sequences of their 4N coefficients.                     *)
ZeroPoly == [i \in 1 .. 4 * N |-> 0]
Bump(poly, exp, v) == [poly EXCEPT ![exp + 1] = Add(@, v)]
PowTab(x) == Powers(x, 4 * N)
LinAt(e, gs, l, xp) == FoldLeft(LAMBDA acc, t : (acc + t[1] * xp[WireX(e, gs, t[2]) + 1]) % P, 0, l)

\* s(x, Y)
SX(e, x) ==
  LET gs == GateStarts(e)
      cs == ConsStarts(e)
      xp == PowTab(x)
  IN FoldLeftDomain(LAMBDA acc, s :
        FoldLeftDomain(LAMBDA a2, j : Bump(a2, cs[s] + Len(e.segs[s].cons) - j, LinAt(e, gs, e.segs[s].cons[j].l, xp)),
                       acc, e.segs[s].cons), ZeroPoly, e.segs)
\* s(X, y)
SY(e, y) ==
  LET gs == GateStarts(e)
      cs == ConsStarts(e)
      yp == PowTab(y)
  IN FoldLeftDomain(LAMBDA acc, s :
        FoldLeftDomain(LAMBDA a2, j :
            FoldLeft(LAMBDA a3, t : Bump(a3, WireX(e, gs, t[2]), Mul(t[1], yp[cs[s] + Len(e.segs[s].cons) - j + 1])),
                     a2, e.segs[s].cons[j].l),
            acc, e.segs[s].cons), ZeroPoly, e.segs)
SXY(e, x, y) == Eval(SX(e, x), y)
\* k * (XY)^(4N-1)
KeyTerm(key, x, y) == Mul(key, Pow(Mul(x, y), 4 * N - 1))

\* r(X)
RX(e) ==
  LET gs == GateStarts(e)
  IN FoldLeftDomain(LAMBDA acc, s :
        FoldLeftDomain(LAMBDA a2, i :
            FoldLeftDomain(LAMBDA a3, k : Bump(a3, TraceExp(gs[s] + i - 1, Kinds[k]), e.segs[s].g[i][k]), a2, Kinds),
            acc, e.segs[s].g), ZeroPoly, e.segs)

\* k(y): outputs in order, the last one on Y, and the constant one.
KY(outs, y) == Add(Mul(y, FoldLeft(LAMBDA acc, o : Add(Mul(acc, y), o), 0, outs)), 1 % P)
\* t(X, z)
TZ(z) == LET zp == PowTab(z)
         IN FoldLeft(LAMBDA acc, i : Bump(acc, 4 * N - i, Neg(Add(zp[2 * N - i + 1], zp[2 * N + i]))),
                     ZeroPoly, [i \in 1 .. N |-> i])
Dilate(poly, z) == LET zp == PowTab(z) IN TLCEval([i \in 1 .. Len(poly) |-> Mul(poly[i], zp[i])])
RevDot(p, q) == FoldLeftDomain(LAMBDA acc, i : (acc + p[i] * q[Len(q) + 1 - i]) % P, 0, p)
Identity(e, y, z) == RevDot(RX(e), PolyAdd(PolyAdd(Dilate(RX(e), z), SY(e, y)), TZ(z)))

\* The same by gates and constraints: what the identity accumulates, each at its own monomial.
GateResidual(g) == Sub(Mul(g[1], g[2]), g[3])
AuxResidual(g) == Mul(g[3], g[4])
IdentityBySatisfaction(e, y, z) ==
  LET gs == GateStarts(e)
      cs == ConsStarts(e)
      yp == PowTab(y)
      zp == PowTab(z)
  IN FoldLeftDomain(LAMBDA acc, s :
       LET byGate == FoldLeftDomain(LAMBDA a2, i :
                LET j == gs[s] + i - 1
                    g == e.segs[s].g[i]
                IN (a2 + GateResidual(g) * ((zp[2 * N - j] + zp[2 * N + j + 1]) % P)
                       + AuxResidual(g) * ((zp[j + 1] + zp[4 * N - j]) % P)) % P, acc, e.segs[s].g)
       IN FoldLeftDomain(LAMBDA a2, j : (a2 + e.segs[s].cons[j].v * yp[cs[s] + Len(e.segs[s].cons) - j + 1]) % P,
                         byGate, e.segs[s].cons), 0, e.segs)

\* Is the assignment a satisfying one, for the claimed outputs?
GatesHold(e) == \A s \in 1 .. Len(e.segs) : \A i \in 1 .. Len(e.segs[s].g) :
                  GateResidual(e.segs[s].g[i]) = 0 /\ AuxResidual(e.segs[s].g[i]) = 0
OwnConsHold(e) == \A s \in 1 .. Len(e.segs) : \A j \in 1 .. e.own[s] : e.segs[s].cons[j].v = 0
Satisfied(e, claims) == GatesHold(e) /\ OwnConsHold(e) /\ e.outs = claims
=============================================================================
