------------------------------ MODULE PolyGen -------------------------------
(* Pairs of polynomials by the pattern of their nonzero coefficients: both are made of the same    *)
(* row of cells, each cell empty, full, or nonzero at its first or last place only; cells are as   *)
(* wide as the storage's tolerance for zeros, or one more or less, and the row begins at the       *)
(* bottom, across the middle or at the top.                                                        *)
EXTENDS Poly, IOUtils, Json
CONSTANTS Cells, Widths
Fill == {"none", "all", "first", "last"}
Base == {0, 2 * N - 7, 1000}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({[w |-> w, base |-> b, p |-> p, q |-> q] :
         w \in Widths, b \in Base, p \in [1 .. Cells -> Fill], q \in [1 .. Cells -> Fill]}))
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
