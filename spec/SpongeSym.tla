------------------------------ MODULE SpongeSym ------------------------------
(* Recorded histories with the real parameters. Their values are known by name only: two outputs may *)
(* coincide exactly when the symbolic sponge says they are the same cell after the same blocks. A     *)
(* block is padded with zeros, because absorbing adds.                                               *)
EXTENDS Sponge, IOUtils, Json
CONSTANTS Chunks
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE c

Run(b, h) ==
  LET pad(q) == q \o [i \in 1 .. b.rate - Len(q) |-> 0]
      PB(st, q) == Append(st, pad(q))
      \* Field values are large here: an element is the number 0 or 1, or the bytes of a chunk.
      name(bytes) == IF \A i \in 2 .. 16 : bytes[i] = 0 THEN bytes[1] ELSE bytes
      prefix == <<Len(h.tag)>> \o [i \in DOMAIN LabelChunks(h.tag, 16) |-> name(LabelChunks(h.tag, 16)[i])]
      m0 == IF h.kind = "sponge" THEN Fresh(<<>>)
            ELSE FoldLeft(LAMBDA m, v : Absorb(PB, b.rate, m, v), Fresh(<<>>), prefix)
  IN  RunOps(PB, LAMBDA st, i : <<st, i>>, b.rate, b.t, h.kind = "transcript", m0, h.ops)

\* Values are compared as strings, since a chunk may be a number or a sequence of bytes.
CaseOK(b) ==
  LET want == TLCEval([k \in DOMAIN b.hist |-> Run(b, b.hist[k])])
      cells(k) == UNION {IF want[k][i].err # "" THEN {}
                         ELSE {<<ToString(want[k][i].cells[j]), b.hist[k].res[i].v[j]>> : j \in DOMAIN want[k][i].cells}
                         : i \in DOMAIN want[k]}
      pairs == TLCEval(UNION {cells(k) : k \in DOMAIN want})
  IN  /\ \A k \in DOMAIN want :
           /\ Len(b.hist[k].res) = Len(want[k])
           /\ \A i \in DOMAIN want[k] :
                LET r == b.hist[k].res[i]
                IN  r.e = want[k][i].err /\ Len(r.v) = Len(want[k][i].cells)
      /\ Cardinality(pairs) = Cardinality({p[1] : p \in pairs})
      /\ Cardinality(pairs) = Cardinality({p[2] : p \in pairs})

Len_ == Len(Trace)
Init == c \in {<<k, k>> : k \in 1 .. (IF Len_ < Chunks THEN Len_ ELSE Chunks)}
Next == c[2] + Chunks <= Len_ /\ c' = <<c[1], c[2] + Chunks>>
Ok == CaseOK(Trace[c[2]])
=============================================================================
