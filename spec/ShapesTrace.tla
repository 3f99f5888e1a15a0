---------------------------- MODULE ShapesTrace -----------------------------
(* What the derived operations of compiled definitions did, judged by the definition.              *)
EXTENDS Shapes, TLC, IOUtils, Json
CONSTANT Chunks
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE c

Same(n) == n
(* The operation run undisturbed (first entry), then stopped at its first, second, ... visit.      *)
Runs(rs, seq) ==
  /\ Len(rs) >= Len(seq) + 1
  /\ \A i \in DOMAIN rs :
       LET k == i - 1
           cut == k # 0 /\ k <= Len(seq)
       IN rs[i].ok = ~cut /\ rs[i].log = IF cut THEN SubSeq(seq, 1, k) ELSE seq
CaseOK(e) ==
  LET t == e.shape
      o == e.obs
      n == NumWires(t)
      all == AllWires(t)
      here == Sight(t, Same, TRUE)
      \* results are named after the order of the calls, which is the order of the wires
      out(b) == Sight(t, LAMBDA i : 5000 + i, b)
      bare == Sight(t, Same, FALSE)
      nothing == Sight(t, LAMBDA i : 0, TRUE)
  IN /\ "panic" \notin DOMAIN o
     /\ o.made = here /\ o.clone = here /\ o.cloned = here /\ o.again = here
     /\ o.wires = n
     /\ o.map.log = all /\ o.map.out = out(TRUE)
     /\ Runs(o.stop, all)
     /\ o.gone.log = all /\ o.gone.out = out(FALSE) /\ o.gone.wires = n /\ o.gone.clone = out(FALSE)
     /\ o.gone.log2 = [i \in 1 .. n |-> 5000 + i] /\ o.gone.out2 = out(FALSE)
     /\ o.twice = Sight(t, LAMBDA i : 20000 + i, TRUE)
     /\ o.strip = nothing
     /\ o.wired = all
     /\ o.demote.out = bare /\ o.demote.clone = bare /\ o.demote.log = all /\ o.demote.wires = n
     /\ o.demote.mapped = out(FALSE)
     /\ Runs(o.eq, [i \in 1 .. n |-> <<i, 100 + i>>])
     /\ ("write" \in DOMAIN o) = Writable(t) /\ ("check" \in DOMAIN o) = Checkable(t)
     /\ Writable(t) => Runs(o.write, Written(t))
     /\ Checkable(t) => Runs(o.check, Checked(t))
     /\ o.named

N == Len(Trace)
Init == c \in {<<k, k>> : k \in 1 .. (IF N < Chunks THEN N ELSE Chunks)}
Next == c[2] + Chunks <= N /\ c' = <<c[1], c[2] + Chunks>>
Ok == CaseOK(Trace[c[2]])
=============================================================================
