---------------------------- MODULE GadgetNative ----------------------------
(* The endoscalar functions computed outside circuits, and the law that ties them to points:          *)
(* lifting to the scalar field and multiplying is the same as scaling by the bits.                    *)
EXTENDS Gadget, IOUtils, Json
CONSTANTS Chunks
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE c
CaseOK(e) ==
  /\ Mul(e.zeta, Mul(e.zeta, e.zeta)) = 1 /\ e.zeta # 1
  /\ IF e.o = "extract"
     THEN "bits" \in DOMAIN e /\ \A i \in 1 .. Len(e.bits) : e.bits[i] = ExtractBit(e.v, i - 1)
     ELSE e.v = Lift(e.bits, e.zeta)
Len_ == Len(Trace)
Init == c \in {<<k, k>> : k \in 1 .. (IF Len_ < Chunks THEN Len_ ELSE Chunks)}
Next == c[2] + Chunks <= Len_ /\ c' = <<c[1], c[2] + Chunks>>
Ok == CaseOK(Trace[c[2]])
=============================================================================
