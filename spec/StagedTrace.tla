---------------------------- MODULE StagedTrace -----------------------------
(* Recorded stages, masks, multi-stage and bonding circuits.                                       *)
EXTENDS Staged, IOUtils, Json
CONSTANT Chunks
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE c

IsOk(r) == "ok" \in DOMAIN r
IsErr(r, s) == "err" \in DOMAIN r /\ r.err = s
\* o records one circuit of a registry, with s(x, Y) = sx and s(X, y) = sy.
Object(o, counts, sx, sy, x, y) ==
  /\ o.counts = counts
  /\ o.sx = WithKeyAt(sx, o.key, x)
  /\ o.sy = WithKeyAt(sy, o.key, y)
  /\ o.sxy = <<Add(Eval(sx, y), KeyTerm(o.key, x, y)), Eval(sy, 0), Eval(sx, 0)>>
  /\ o.zeros = <<o.sxy[2], o.sxy[3]>>
Mask(o, skip, num, x, y) ==
  IF skip + num > N THEN IsErr(o, "gates " \o ToString(N))
  ELSE IsOk(o) /\ Object(o.ok, <<N, 4 * N - 1>>, MaskPoly(skip, num, x), MaskPoly(skip, num, y), x, y)
LastMask(o, skip, x, y) ==
  IF skip > N THEN IsErr(o, "gates " \o ToString(N)) ELSE Mask(o, skip, N - skip, x, y)
Level(e, k) ==
  LET o == e.levels[k]
      s == e.stages[k]
      skip == Skip(e.stages, k)
      num == NumG(s.values)
  IN /\ o.skip = skip /\ o.num = num
     /\ o.gens = [i \in 1 .. num |-> TraceExp(skip + i - 1, "b")]
     /\ IF s.wires > s.values THEN IsErr(o.rx, "gates " \o ToString(num))
        ELSE IF skip + num > N THEN ~IsOk(o.rx)
        ELSE IsOk(o.rx) /\ o.rx.ok = StagePoly(e.stages, k, e.alphas[k + 1])
     /\ Mask(o.mask, skip, num, e.x, e.y)
     /\ LastMask(o.last, skip + num, e.x, e.y)
Whole(e) ==
  LET o == e.whole
      m == Len(e.stages)
      el == StagedElab(e, FoldLeft(Add, 0, SubSeq(e.alphas, 1, m + 1)), TRUE)
      fin == StagedElab(e, e.alphas[1], FALSE)
      r == Refused(el)
  IN IF ~ShapeOK(e.stages) THEN IsErr(o, ShapeError(e.stages))
     ELSE IF r # <<>> THEN IsErr(o, r[1] \o " " \o ToString(r[2]))
     ELSE /\ IsOk(o)
          /\ Object(o.ok.s, <<NumGates(el), NumCons(el)>>, SX(el, e.x), SY(el, e.y), e.x, e.y)
          /\ o.ok.final = RX(fin)
          /\ o.ok.sum = RX(el)
          /\ o.ok.id = Identity(el, e.y, e.z)
          /\ o.ok.ky = KY(e.claims, e.y)
          /\ (Satisfied(el, e.claims) => o.ok.id = o.ok.ky)
          /\ LastMask([ok |-> o.ok.last], FirstFree(e.stages), e.x, e.y)
Bond(e) ==
  LET o == e.bond
      el == StagedElab(e, 0, TRUE)
      r == Refused(el)
  IN IF ~ShapeOK(e.stages) THEN IsErr(o, ShapeError(e.stages))
     ELSE IF ~Bonds(el) THEN IsErr(o, "witness")
     ELSE IF r # <<>> THEN IsErr(o, r[1] \o " " \o ToString(r[2]))
     ELSE IsOk(o) /\ Object(o.ok, <<NumGates(el), NumCons(el) - 1>>, NoOneX(SX(el, e.x)), NoOneY(SY(el, e.y)), e.x, e.y)
CaseOK(e) == /\ \A k \in 1 .. Len(e.levels) : Level(e, k)
             /\ Whole(e)
             /\ Bond(e)

Len_ == Len(Trace)
Init == c \in {<<k, k>> : k \in 1 .. (IF Len_ < Chunks THEN Len_ ELSE Chunks)}
Next == c[2] + Chunks <= Len_ /\ c' = <<c[1], c[2] + Chunks>>
Ok == CaseOK(Trace[c[2]])
=============================================================================
