---------------------------- MODULE CircuitTrace ----------------------------
(* Recorded registrations, evaluations, traces and simulations of interpreted circuits.            *)
EXTENDS Circuit, TLC, IOUtils, Json
CONSTANT Chunks
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE c

Ones(n) == [i \in 1 .. n |-> 1]
OK(o, e) ==
  LET p == e.prog
      el == Elab(p, e.alpha)
      st == el.st
      sat == GatesHold(el) /\ OwnConsHold(el)
      sx == SX(el, e.x)
      sy == SY(el, e.y)
      key == o.key
      vals == [i \in 1 .. Len(st.regs) |-> st.regs[i].v]
  IN /\ o.counts = <<NumGates(el), NumCons(el)>>
     /\ o.closures = 0
     /\ o.sx = Bump(sx, 4 * N - 1, Mul(key, Pow(e.x, 4 * N - 1)))
     /\ o.sy = Bump(sy, 4 * N - 1, Mul(key, Pow(e.y, 4 * N - 1)))
     /\ LET full == Add(Eval(sx, e.y), KeyTerm(key, e.x, e.y))
        IN o.sxy = <<full, Eval(SX(el, 0), e.y), Eval(sx, 0), full>>
     /\ o.zeros = <<o.sxy[3], o.sxy[2]>>
     /\ o.ky = [ok |-> KY(e.claims, e.y)]
     /\ o.traces = <<[ok |-> RX(el)]>>
     /\ o.id = Identity(el, e.y, e.z)
     /\ o.id = IdentityBySatisfaction(el, e.y, e.z)
     /\ (Satisfied(el, e.claims) => o.id = o.ky.ok)
     /\ (sat => "ok" \in DOMAIN o.sim /\ o.sim.ok = [g |-> st.nmul, a |-> st.nalloc, c |-> st.nzero,
                                                      outs |-> el.outs, wires |-> el.outs])
     \* The simulator sees the values of gates as they are written; it checks what it sees.
     /\ (~sat => o.sim = [err |-> "witness"])
     /\ o.wired = [ok |-> <<vals, vals>>]
     /\ o.wireless = [ok |-> vals]
     /\ o.counter = [ok |-> <<Len(vals), 0>>]
CaseOK(e) ==
  IF "ok" \in DOMAIN e.out THEN Refused(Elab(e.prog, e.alpha)) = <<>> /\ OK(e.out.ok, e)
  ELSE /\ "err" \in DOMAIN e.out
       /\ LET r == Refused(Elab(e.prog, e.alpha))
          IN r # <<>> /\ e.out.err = r[1] \o " " \o ToString(r[2])

Len_ == Len(Trace)
Init == c \in {<<k, k>> : k \in 1 .. (IF Len_ < Chunks THEN Len_ ELSE Chunks)}
Next == c[2] + Chunks <= Len_ /\ c' = <<c[1], c[2] + Chunks>>
Ok == CaseOK(Trace[c[2]])
=============================================================================
