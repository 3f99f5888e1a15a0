--------------------------- MODULE RegistryTrace ----------------------------
(* Recorded registries: every restriction, and keys of registries that are nearly the same.        *)
EXTENDS Registry, IOUtils, Json
CONSTANT Chunks
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE c

OK(o, e) ==
  LET items == Ordered(e.items)
      n == Len(items)
      k == Log2Ceil(n)
      els == TLCEval([i \in 1 .. n |-> ItemElab(items[i])])
      sx == TLCEval([i \in 1 .. n |-> ItemSX(items[i], els[i], e.x)])
      sy == TLCEval([i \in 1 .. n |-> ItemSY(items[i], els[i], e.y)])
      v == TLCEval([i \in 1 .. n |-> Eval(sx[i], e.y)])
      v0x == TLCEval([i \in 1 .. n |-> Eval(sy[i], 0)])     \* s(0, y)
      v0y == TLCEval([i \in 1 .. n |-> Eval(sx[i], 0)])     \* s(x, 0)
      key == o.digests[1]
      kxy == KeyTerm(key, e.x, e.y)
      \* A polynomial in W, by its values at the domain points and its degree.
      InW(poly, vals, kt) ==
        /\ Len(poly) <= 4 * N
        /\ \A i \in 2 ^ k + 1 .. Len(poly) : poly[i] = 0
        /\ \A i \in 1 .. 2 ^ k : Eval(SubSeq(poly, 1, IF Len(poly) < 2 ^ k THEN Len(poly) ELSE 2 ^ k), PointOf(i - 1))
                                  = Add(IF i <= n THEN vals[i] ELSE 0, kt)
  IN /\ o.n = n
     /\ o.digests[1] = o.digests[2]
     /\ o.counts = [i \in 1 .. n |-> ItemCounts(items[i], els[i])]
     /\ o.omegas = [i \in 1 .. n + 5 |-> PointOf(i - 1)]
     /\ o.inside = [i \in 1 .. n + 5 |-> i <= 2 ^ k]
     /\ InW(o.xy[1], v, kxy) /\ InW(o.xy[2], v0x, 0) /\ InW(o.xy[3], v0y, 0)
     /\ \A q \in Range(o.ws) :
          LET ws == Weights(k, q.w)
              at(vals) == FoldLeftDomain(LAMBDA acc, i : (acc + ws[i] * vals[i]) % P, 0, vals)
          IN /\ q.wx = <<WithKeyAt(Combination(ws, sx), key, e.x)>>
             /\ q.wy = <<WithKeyAt(Combination(ws, sy), key, e.y)>>
             /\ q.wxy = <<Add(at(v), kxy)>>
             /\ q.zeros = <<at(v0x), at(v0y), at(v0x), at(v0y)>>
     /\ LET i == o.one.i + 1
        IN (n > 0) => o.one.y = WithKeyAt(sy[i], key, e.y) /\ o.one.xy = Add(v[i], kxy)

\* The content of a registry, circuit by circuit: constraint exponent -> wire exponent -> coefficient.
Canon(it) ==
  IF IsMask(it) THEN LET m == MaskedExps(it.mask.skip, it.mask.num)
                     IN [rows |-> {<<x, {<<x, 1>>}>> : x \in {x \in 0 .. 4 * N - 1 : m[x]}}]
  ELSE LET e == Elab(it.prog, 0)
           gs == GateStarts(e)
           cs == ConsStarts(e)
           row(s, j) == FoldLeft(LAMBDA m, t :
                          LET w == WireX(e, gs, t[2])
                          IN [m EXCEPT ![w] = Add(@, t[1])], [x \in 0 .. 4 * N - 1 |-> 0], e.segs[s].cons[j].l)
           rows == UNION {{<<cs[s] + Len(e.segs[s].cons) - j, TLCEval(row(s, j))>> : j \in 1 .. Len(e.segs[s].cons)} : s \in 1 .. Len(e.segs)}
       IN [rows |-> {<<r[1], {<<x, r[2][x]>> : x \in {x \in 0 .. 4 * N - 1 : r[2][x] # 0}}>> :
                     r \in {r \in rows : \E x \in 0 .. 4 * N - 1 : r[2][x] # 0}}]
\* Points of the domain without a circuit hold the zero polynomial.
Padded(cs) == TLCEval([i \in 1 .. 2 ^ Log2Ceil(Len(cs)) |-> IF i <= Len(cs) THEN cs[i] ELSE [rows |-> {}]])
Constant(cs) == \A i \in 1 .. Len(cs) : cs[i] = cs[1]
\* Over domains of different sizes only constants coincide (the others would need coefficients
\* that are not small integers).
SamePoly(a, b) == a = b \/ (Len(a) # Len(b) /\ Constant(a) /\ Constant(b) /\ a[1] = b[1])
Keys(e) ==
  LET n == Len(e.lists)
      cs == TLCEval([i \in 1 .. n |-> LET o == Ordered(e.lists[i]) IN Padded([j \in 1 .. Len(o) |-> Canon(o[j])])])
  IN /\ \A i \in 1 .. n : "ok" \in DOMAIN e.out[i]
     /\ \A i, j \in 1 .. n : i < j => (e.out[i].ok = e.out[j].ok <=> SamePoly(cs[i], cs[j]))
CaseOK(e) ==
  CASE e.kind = "registry" -> "ok" \in DOMAIN e.out /\ OK(e.out.ok, e)
    [] e.kind = "keys" -> Keys(e)
    [] e.kind = "capacity" -> e.out = IF e.n <= 4 * N THEN [ok |-> e.n] ELSE [err |-> "circuits " \o ToString(4 * N)]

Len_ == Len(Trace)
Init == c \in {<<k, k>> : k \in 1 .. (IF Len_ < Chunks THEN Len_ ELSE Chunks)}
Next == c[2] + Chunks <= Len_ /\ c' = <<c[1], c[2] + Chunks>>
Ok == CaseOK(Trace[c[2]])
=============================================================================
