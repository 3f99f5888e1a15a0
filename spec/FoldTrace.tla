------------------------------ MODULE FoldTrace ------------------------------
(* What the code folds, the error terms it computes and the claims it lists, against the rules.       *)
EXTENDS Poly, Fold, IOUtils, Json
CONSTANTS Chunks
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE c

GroupFold(ps, n, m, s) == TLCEval([g \in 1 .. n |-> PFold(Group(ps, m, g, ZeroP), s)])
Products(a, b, q) == LET od == OffDiagonal(q) IN TLCEval([x \in DOMAIN od |-> RevDot(a[od[x][1]], b[od[x][2]])])
AllSame(rs, ok, v) == \A i \in DOMAIN rs : rs[i].ok = ok /\ (ok => rs[i].v = v)

FoldOK(e) ==
  LET n == e.n
      m == e.m
      take(ps) == Group(ps, n, 1, ZeroP)
      ga(g) == Group(e.a, m, g, ZeroP)
      gb(g) == Group(e.b, m, g, ZeroP)
  IN  /\ e.refused
      /\ e.inner = GroupFold(e.a, n, m, e.s1)
      /\ e.outer = PFold(GroupFold(e.a, n, m, e.s1), e.s2)
      /\ e.e1 = [g \in 1 .. n |-> Products(ga(g), gb(g), m)]
      /\ e.e2 = Products(take(SubSeq(e.a, 1, IF Len(e.a) < n THEN Len(e.a) ELSE n)), take(SubSeq(e.b, 1, IF Len(e.b) < n THEN Len(e.b) ELSE n)), n)
      /\ AllSame(e.two, TRUE, TwoLayer(e.src, n, m, e.s1, e.s2))
      /\ AllSame(e.ci, e.mu # 0, ClaimValue(m, e.mu, e.nu, e.fi.e, e.fi.k))
      /\ AllSame(e.co, e.mu # 0, ClaimValue(n, e.mu, e.nu, e.fo.e, e.fo.k))
      /\ (e.whole = <<>>) <=> (e.mu = 0 \/ e.mu2 = 0)
      /\ e.whole # <<>> =>
           LET w == e.whole[1]
               fa == GroupFold(e.a, n, m, Inv(e.mu))
               fb == GroupFold(e.b, n, m, Mul(e.mu, e.nu))
           IN  /\ w.ks = [i \in 1 .. n * m |-> IF i <= e.k THEN RevDot(e.a[i], e.b[i]) ELSE 0]
               /\ w.col = [g \in 1 .. n |-> RevDot(fa[g], fb[g])]
               /\ w.eo = Products(fa, fb, n)
               /\ w.rd = RevDot(PFold(fa, Inv(e.mu2)), PFold(fb, Mul(e.mu2, e.nu2)))
               /\ w.c = w.rd

Flat(q) == [i \in DOMAIN q |-> ToString(q[i][1]) \o "." \o q[i][2]]
OrderOK(e) ==
  LET want == IF e.side = "native" THEN NativeClaims(e.p) ELSE NestedClaims(e.p)
      ids == IF e.side = "native" THEN NativeIds ELSE NestedIds
  IN  /\ e.claims = [i \in DOMAIN want |-> [want[i] EXCEPT !.rx = Flat(@)]]
      \* In the other field only single proofs are verified.
      /\ IF e.side = "native" THEN e.ky = NativeKys(e.p, Len(e.ky)) ELSE e.p = 1 => e.ky = NestedKys(Len(e.ky))
      /\ e.ids = [i \in DOMAIN ids |-> <<ids[i], i - 1>>]
      /\ e.side = "native" /\ e.p <= 2 => Len(want) <= e.room

Pos(q, v) == CHOOSE i \in DOMAIN q : q[i] = v
BuiltOK(e) ==
  LET want == IF e.side = "native" THEN NativeClaims(e.p) ELSE NestedClaims(e.p)
      ids == IF e.side = "native" THEN NativeIds ELSE NestedIds
      poly(q) == e.polys[q[1]][Pos(e.names, q[2])]
      polys(cl) == [i \in DOMAIN cl.rx |-> poly(cl.rx[i])]
      sum(ps) == FoldLeft(PAdd, ZeroP, ps)
      sy(cl) == IF cl.t = "app" THEN e.sy[e.app[cl.rx[1][1]] + 1] ELSE e.sy[Pos(ids, cl.id)]
      A(cl) == CASE cl.t = "raw" -> polys(cl)[1]
                 [] cl.t = "bonding" -> PFold(polys(cl), e.z)
                 [] OTHER -> sum(polys(cl))
      B(cl) == CASE cl.t = "raw" -> polys(cl)[2]
                 [] cl.t = "bonding" -> sy(cl)
                 [] OTHER -> PAdd(PAdd(PDilate(A(cl), e.z), sy(cl)), TZ(e.z))
  IN  /\ e.a = [i \in DOMAIN want |-> A(want[i])]
      /\ e.b = [i \in DOMAIN want |-> B(want[i])]

CaseOK(e) == CASE e.kind = "fold" -> FoldOK(e) [] e.kind = "order" -> OrderOK(e) [] e.kind = "built" -> BuiltOK(e)

Len_ == Len(Trace)
Init == c \in {<<k, k>> : k \in 1 .. (IF Len_ < Chunks THEN Len_ ELSE Chunks)}
Next == c[2] + Chunks <= Len_ /\ c' = <<c[1], c[2] + Chunks>>
Ok == CaseOK(Trace[c[2]])
=============================================================================
