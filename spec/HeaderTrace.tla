----------------------------- MODULE HeaderTrace -----------------------------
(* Headers encoded by the code, in all its ways, and the wiring that makes the encoding.            *)
EXTENDS Header, IOUtils, Json
CONSTANT Chunks
VARIABLE c
Trace == ndJsonDeserialize(IOEnv.TRACE)

All(rs, want) == \A i \in DOMAIN rs : rs[i] = want
\* The wiring of a plain encoding: each datum is a wire of its own, shown as it is; the rest constant.
DirectRows(rows, k, n, sfx) ==
  /\ Len(rows) = n
  /\ \A i \in 1 .. k : Len(rows[i]) = 1 /\ rows[i][1][1] # 0 /\ rows[i][1][2] = 1
  /\ \A i, j \in 1 .. k : i # j => rows[i][1][1] # rows[j][1][1]
  /\ \A i \in k + 1 .. n - 1 : rows[i] = <<>>
  /\ rows[n] = <<<<0, sfx>>>>
\* A uniform encoding: every element a fresh wire, whatever the type.
UniformRows(rows, n) ==
  /\ Len(rows) = n
  /\ \A i \in 1 .. n : Len(rows[i]) = 1 /\ rows[i][1][1] # 0 /\ rows[i][1][2] = 1
  /\ \A i, j \in 1 .. n : i # j => rows[i][1][1] # rows[j][1][1]

EncodeOK(e) ==
  LET sfx == e.sfx + Internal
      want == Encoded(e.shape, sfx, e.data, e.n)
      k == Size(e.shape)
  IN
  /\ Len(e.data) = k
  /\ All(e.gadget, want) /\ All(e.bare, want) /\ All(e.uniform, want)
  /\ e.verifier = want
  /\ IF "err" \in DOMAIN want
     THEN e.sys = want /\ e.unisys = want /\ e.rr = want /\ e.rrout = want
     ELSE /\ "ok" \in DOMAIN e.sys /\ DirectRows(e.sys.ok.rows, k, e.n, sfx)
          /\ "ok" \in DOMAIN e.unisys /\ UniformRows(e.unisys.ok.rows, e.n)
          \* One circuit rerandomizes headers of every type.
          /\ e.unisys = e.unione /\ e.rr = e.rrone /\ "ok" \in DOMAIN e.rr
          /\ LET rows == e.rr.ok.rows IN
             /\ Len(rows) = 3 * e.n
             /\ UniformRows(SubSeq(rows, 1, e.n), e.n)
             /\ DirectRows(SubSeq(rows, e.n + 1, 2 * e.n), 0, e.n, 1)
             /\ SubSeq(rows, 2 * e.n + 1, 3 * e.n) = SubSeq(rows, 1, e.n)
          /\ e.rrout = StepOut([s |-> e.shape, sfx |-> sfx, data |-> e.data], [s |-> [t |-> "unit"], sfx |-> 1, data |-> <<>>],
                               [s |-> e.shape, sfx |-> sfx, data |-> e.data], e.n)

Inner(h) == [h EXCEPT !.sfx = h.sfx + Internal]
StepOK(e) ==
  LET l == Inner(e.left) r == Inner(e.right) o == Inner(e.output)
      want == StepOut(l, r, o, e.n)
      full == IF "err" \in DOMAIN want THEN want
              ELSE [ok |-> [out |-> want.ok, left |-> Encode(l.s, l.sfx, l.data, e.n), right |-> Encode(r.s, r.sfx, r.data, e.n),
                            data |-> o.data]]
  IN  /\ Len(l.data) = Size(l.s) /\ Len(r.data) = Size(r.s) /\ Len(o.data) = Size(o.s)
      /\ All(e.runs, full)

CaseOK(e) == CASE e.kind = "encode" -> EncodeOK(e) [] e.kind = "step" -> StepOK(e)

Len_ == Len(Trace)
Init == c \in {<<k, k>> : k \in 1 .. (IF Len_ < Chunks THEN Len_ ELSE Chunks)}
Next == c[2] + Chunks <= Len_ /\ c' = <<c[1], c[2] + Chunks>>
Ok == CaseOK(Trace[c[2]])
=============================================================================
