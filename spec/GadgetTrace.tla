----------------------------- MODULE GadgetTrace ----------------------------
(* Honest runs: the values the code puts on the wires satisfy the recorded constraints exactly when  *)
(* every gadget's result is defined, and the registers hold those results.                            *)
EXTENDS Gadget, IOUtils, Json
CONSTANTS Chunks
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE c

Row(row, f) == FoldLeft(LAMBDA acc, t : (acc + t[2] * f[t[1] + 1]) % P, 0, row)   \* f[1] is the one wire
ClaimOf(q, f) ==
  [o |-> q.o, k |-> q.k,
   a |-> [x \in DOMAIN q.a |-> [y \in DOMAIN q.a[x] |-> Row(q.a[x][y], f)]],
   r |-> [y \in DOMAIN q.r |-> Row(q.r[y], f)]]
InputClaims(s) == SelectSeq([i \in DOMAIN s.claims |-> i], LAMBDA i : s.claims[i].o \in Inputs)
\* The instruction (number of the claim) that takes the k-th input.
GatesOK(s, f) == \A i \in DOMAIN f : /\ s.base[i] = "c" => f[i] = Mul(f[i - 2], f[i - 1])
                                     /\ s.base[i] = "d" => Mul(f[i], f[i - 1]) = 0
ConsOK(s, f) == \A j \in DOMAIN s.cons : Row(s.cons[j], f) = 0

InputMatches(cl, v) ==
  CASE cl.o = "palloc" -> cl.r = v
    [] OTHER -> cl.r[1] = v[1] /\ (cl.o = "pfree" => cl.r = v)

RunOK(s, r) ==
  LET f == r.w
      ic == InputClaims(s)
  IN /\ r.same
     /\ IF r.ok
        THEN LET cl == TLCEval([i \in DOMAIN s.claims |-> ClaimOf(s.claims[i], f)])
                 good == \A i \in DOMAIN cl : IF cl[i].o \in Inputs THEN InputOK(cl[i], s) ELSE Defined(cl[i], s)
                 sat == GatesOK(s, f) /\ ConsOK(s, f)
             IN /\ Len(f) = Len(s.base)
                /\ sat = good
                /\ r.sim = good
                /\ \A i \in DOMAIN ic : InputMatches(cl[ic[i]], r.in[i])
                \* Up to the first gadget whose promise fails, registers hold their results.
                /\ \A i \in DOMAIN cl :
                     (\A j \in 1 .. i : IF cl[j].o \in Inputs THEN InputOK(cl[j], s) ELSE Defined(cl[j], s))
                        => /\ r.v[i] = cl[i].r
                           /\ cl[i].o \notin Inputs => cl[i].r = Value(cl[i], s)
        ELSE \* The run stopped in the middle: the claims made so far hold and the next one cannot.
             LET done == IF r.at = 0 THEN <<>> ELSE [i \in 1 .. r.at |-> ClaimOf(s.claims[i], f)]
                 nx == s.claims[r.at + 1]
             IN /\ ~r.sim
                /\ r.at < Len(s.claims)
                /\ IF nx.o = "palloc"
                   THEN r.in[Cardinality({i \in 1 .. r.at + 1 : s.claims[i].o \in Inputs})] = <<>>
                   ELSE ~Defined([o |-> nx.o, k |-> nx.k, r |-> <<>>,
                                  a |-> [x \in DOMAIN nx.a |-> [y \in DOMAIN nx.a[x] |-> Row(nx.a[x][y], f)]]], s)
                /\ \A i \in DOMAIN done :
                     (\A j \in 1 .. i : IF done[j].o \in Inputs THEN InputOK(done[j], s) ELSE Defined(done[j], s))
                        => r.v[i] = done[i].r /\ (done[i].o \notin Inputs => done[i].r = Value(done[i], s))

CaseOK(s) == s.complete /\ \A i \in DOMAIN s.runs : RunOK(s, s.runs[i])

Len_ == Len(Trace)
Init == c \in {<<k, k>> : k \in 1 .. (IF Len_ < Chunks THEN Len_ ELSE Chunks)}
Next == c[2] + Chunks <= Len_ /\ c' = <<c[1], c[2] + Chunks>>
Ok == CaseOK(Trace[c[2]])
=============================================================================
