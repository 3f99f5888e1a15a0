------------------------------ MODULE MaybeGen ------------------------------
EXTENDS MaybeModel
ASSUME EmitPrograms
GInit == prog = <<>> /\ a = 0 /\ e = 0 /\ closures = 0
GNext == FALSE /\ UNCHANGED vars
=============================================================================
