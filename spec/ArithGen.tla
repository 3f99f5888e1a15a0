----------------------------- MODULE ArithGen -----------------------------
EXTENDS ArithAlgo
ASSUME Emit
GInit == job = 0 /\ st = 0
GNext == FALSE /\ UNCHANGED vars
=============================================================================
