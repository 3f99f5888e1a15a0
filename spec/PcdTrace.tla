------------------------------ MODULE PcdTrace -------------------------------
(* Histories run on the code: what each item was, what the verifier said.                           *)
EXTENDS Pcd, IOUtils, Json
CONSTANT Chunks
VARIABLE c
Trace == ndJsonDeserialize(IOEnv.TRACE)
Shift(d, add) == [i \in DOMAIN d |-> d[i] + (IF i \in DOMAIN add THEN add[i] ELSE 0)]
\* Presented as another type, data are cut or filled up; they are another type's all the same.
Judged(x, op) == Verdicts(x, op.ty, Shift(x.data, op.add), op.in)
Items(pool, op) == CASE op.o = "seed" -> Append(pool, Made(op.s, op.w, Trivial, Trivial))
                     [] op.o = "fuse" -> Append(pool, Made(op.s, op.w, pool[op.i + 1], pool[op.j + 1]))
                     [] op.o = "rr" -> Append(pool, Again(pool[op.i + 1]))
                     [] OTHER -> pool
OutOK(pool, op, out) ==
  IF op.o \in {"seed", "fuse", "rr"}
  THEN LET x == Items(pool, op)[Len(pool) + 1] IN
       /\ op.o = "fuse" => WellTyped(op.s, pool[op.i + 1], pool[op.j + 1])
       /\ "ty" \in DOMAIN out /\ out.ty = x.ty /\ out.data = x.data
  ELSE IF op.o = "verify"
  \* A refusal is a verdict; for an item in order only the verdict TRUE will do.
  THEN IF "err" \in DOMAIN out THEN out.err = "error" /\ FALSE \in Judged(pool[op.i + 1], op)
       ELSE out.verdict \in Judged(pool[op.i + 1], op)
  ELSE IF op.o = "loose" THEN out.loose = <<>> /\ out.checked > 0
  ELSE op.o = "fresh"
RECURSIVE Run(_, _, _, _)
Run(pool, ops, outs, i) == IF i > Len(ops) THEN TRUE
                           ELSE OutOK(pool, ops[i], outs[i]) /\ Run(TLCEval(Items(pool, ops[i])), ops, outs, i + 1)
CaseOK(e) == e.kind = "history" /\ Len(e.ops) = Len(e.outs) /\ Run(<<>>, e.ops, e.outs, 1)

Len_ == Len(Trace)
Init == c \in {<<k, k>> : k \in 1 .. (IF Len_ < Chunks THEN Len_ ELSE Chunks)}
Next == c[2] + Chunks <= Len_ /\ c' = <<c[1], c[2] + Chunks>>
Ok == CaseOK(Trace[c[2]])
=============================================================================
