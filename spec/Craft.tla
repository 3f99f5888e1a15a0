-------------------------------- MODULE Craft --------------------------------
(* A verifier looks at polynomials at points that it draws. A proof can be     *)
(* made to fit at any one point; so the points have to be drawn when it is     *)
(* there already. Here are the ways to make it fit: which claims are off       *)
(* elsewhere.                                                                  *)
EXTENDS Nest

NativeCircuits == <<
  [claim |-> "application",           rx |-> "application",             sum |-> {}],
  [claim |-> "Hashes1Circuit",        rx |-> "circuits.hashes_1",       sum |-> {"preamble", "outer_error"}],
  [claim |-> "Hashes2Circuit",        rx |-> "circuits.hashes_2",       sum |-> {"outer_error"}],
  [claim |-> "InnerCollapseCircuit",  rx |-> "circuits.inner_collapse", sum |-> {"preamble", "inner_error", "outer_error"}],
  [claim |-> "OuterCollapseCircuit",  rx |-> "circuits.outer_collapse", sum |-> {"preamble", "outer_error"}],
  [claim |-> "ComputeVCircuit",       rx |-> "circuits.compute_v",      sum |-> {"preamble", "query", "eval"}]>>
NativeRx == {NativeCircuits[i].rx : i \in DOMAIN NativeCircuits}
NativeStages == UNION {NativeCircuits[i].sum : i \in DOMAIN NativeCircuits}
\* The circuits whose own gates come after the same stages share a mask: they are folded in one claim.
FoldedOver == {"circuits.hashes_1", "circuits.hashes_2", "circuits.outer_collapse"}
NativeFold == "OuterErrorFinalStaged"
Reading(p) == {NativeCircuits[i].claim : i \in {i \in DOMAIN NativeCircuits : p = NativeCircuits[i].rx \/ p \in NativeCircuits[i].sum}}
              \cup {StepClaim(i) : i \in {i \in 0 .. Steps - 1 : p \in Summed(i)}}

(* Values that a proof shows: each circuit's claim is about a polynomial made  *)
(* of those it shows. The first of the internal ones shows the headers, too.   *)
Datum(n) == n \in {"data#0", "data#1"}
Heading(n) == n \in {x \o y : x \in {"application.left_header#", "application.right_header#"}, y \in {"0", "1", "2", "3"}}
Internal == {NativeCircuits[i].claim : i \in DOMAIN NativeCircuits} \ {"application"}
Showing(n) == CASE Datum(n) -> {"application"}
                [] Heading(n) -> {"application", "Hashes1Circuit"}
                [] n = "ab.c" -> Internal \cup {"raw"}
                [] OTHER -> Internal

(* What may be off about such a proof, at points other than the one it is for. *)
Off(e) == LET ch == {e.on[j] : j \in DOMAIN e.on} IN
          CASE e.what \in {"y", "z"} -> UNION {Reading(p) : p \in ch}
            [] e.what = "fold" -> IF e.side = "native" THEN {NativeFold} ELSE {"PointsFinalStaged"}
            [] e.what = "shown" -> UNION {Showing(n) : n \in ch}
            [] e.what = "w" -> {"registry"}
=============================================================================
