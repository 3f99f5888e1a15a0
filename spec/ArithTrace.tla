---------------------------- MODULE ArithTrace ----------------------------
(* Recorded calls of the real ragu_arithmetic, accepted one by one.                                *)
EXTENDS Arith, TLC, IOUtils, Json
CONSTANT Chunks
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE c

CurveB == 5
CurveOrder == 79
CurveGen == <<1, 43>>
Mults == [k \in 0 .. CurveOrder - 1 |-> PtMul(k, CurveGen)]
RECURSIVE ModBytes(_, _, _)
ModBytes(b, i, m) == IF i > Len(b) THEN 0 ELSE (b[i] + 256 * ModBytes(b, i + 1, m)) % m

\* Does the call have to be refused (a documented panic)?
Refused(e) ==
  CASE e.op = "domain" -> e.k > TwoAdicity
    [] e.op \in {"fft", "ifft", "ringfft", "ringifft"} -> Len(e.in) # 2 ^ e.k
    [] e.op = "ell" -> e.amount > 2 ^ e.k
    [] e.op = "dot" -> Len(e.p) # Len(e.q)
    [] e.op \in {"factor", "factor_iter"} -> e.p = <<>>
    [] e.op = "roots" -> Len(e.p) + 1 > 2 ^ TwoAdicity
    [] OTHER -> FALSE

Expected(e, o) ==
  CASE e.op = "coeff" ->
         LET r == RunProg(e.lits, e.prog)
         IN Len(o) = Len(r) /\ \A i \in 1 .. Len(r) : o[i].v = r[i] /\ o[i].z = (r[i] = 0)
    [] e.op = "domain" ->
         /\ o.n = 2 ^ e.k /\ o.log2n = e.k
         /\ o.omega = Omega(e.k) /\ IsPrimitiveRoot(o.omega, e.k)
         /\ \A x \in F : o.contains[x + 1] = (x \in DomainSet(e.k))
    [] e.op = "bitreverse" -> o = BitRevSeq(e.bits, e.l)
    [] e.op = "fft" -> o = Dft(e.in, Omega(e.k))
    [] e.op = "ifft" -> IsInverseDft(o, e.in, Omega(e.k))
    [] e.op = "ringfft" ->
         /\ Len(o) = Len(e.in)
         /\ \A r \in 1 .. 3 : [i \in 1 .. Len(o) |-> o[i][r]] = Dft([i \in 1 .. Len(o) |-> e.in[i][r]], Omega(e.k))
    [] e.op = "ringifft" ->
         /\ Len(o) = Len(e.in)
         /\ \A r \in 1 .. 3 : Dft([i \in 1 .. Len(o) |-> o[i][r]], Omega(e.k)) = [i \in 1 .. Len(o) |-> e.in[i][r]]
    [] e.op = "ell" -> IF e.x \in DomainSet(e.k) THEN o.none
                       ELSE ~o.none /\ o.v = Ell(e.k, e.x, e.amount)
    [] e.op = "eval" -> o = Eval(e.p, e.x)
    [] e.op = "dot" -> o = Dot(e.p, e.q)
    [] e.op = "factor" -> IsQuotient(o, e.p, e.x)
    [] e.op = "factor_iter" -> IsQuotient(Reverse(o), e.p, e.x)
    [] e.op = "geosum" -> o = Geosum(e.x, e.m)
    [] e.op = "roots" -> o = RootsPoly(e.p)
    [] e.op = "low_u64" -> o = SubSeq(e.bytes, 1, 8)
    [] e.op = "affine" -> o = [i \in 1 .. 4 |-> Mults[e.k[i] % CurveOrder]]
    [] e.op = "msm" ->
         o = Mults[FoldLeftDomain(LAMBDA acc, i : (acc + ModBytes(e.scalars[i], 1, CurveOrder) * e.bases[i]) % CurveOrder,
                                  0, e.bases)]

CaseOK(e) == IF "panic" \in DOMAIN e.out THEN Refused(e)
             ELSE ~Refused(e) /\ Expected(e, e.out.ok)

N == Len(Trace)
Init == c \in {<<k, k>> : k \in 1 .. (IF N < Chunks THEN N ELSE Chunks)}
Next == c[2] + Chunks <= N /\ c' = <<c[1], c[2] + Chunks>>
Ok == CaseOK(Trace[c[2]])
=============================================================================
