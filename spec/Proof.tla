------------------------------- MODULE Proof ---------------------------------
(* A proof, component by component, and the checks that read them: those the verifier makes of a    *)
(* proof presented to it, and those that fusing makes of the proofs it consumes (and that verifying  *)
(* the result completes). A check holds of components that come from one proof, and of none that     *)
(* has been altered.                                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Triples == {"application", "preamble", "inner_error", "outer_error", "query", "eval",
            "circuits.hashes_1", "circuits.hashes_2", "circuits.inner_collapse", "circuits.outer_collapse", "circuits.compute_v"}
Registry == {"s_prime.registry_wx0", "s_prime.registry_wx1", "inner_error.registry_wy", "query.registry_xy"}
Folded == {"ab.a", "ab.b", "f.poly", "p.poly"}
Native == Triples \cup Registry \cup Folded
Bridges == {x \o ".bridge" : x \in {"preamble", "s_prime", "inner_error", "outer_error", "ab", "query", "f", "eval"}}
Rx(x) == x \o ".rx"
Commitment(x) == x \o ".commitment"
Committed == Native \cup Bridges
Steps == {"p.nested.step." \o ToString(i) : i \in 0 .. 8}
NestedOnly == {Rx(s) : s \in Steps} \cup {"p.nested.endoscalar.rx", "p.nested.points.rx"}
Challenges == {"challenges." \o x : x \in {"w", "y", "z", "mu", "nu", "mu_prime", "nu_prime", "x", "alpha", "u", "pre_beta"}}
Headers == {"application.left_header", "application.right_header"}
Scalars == {"ab.c", "p.v"}
Components == {Rx(x) : x \in Committed} \cup {Commitment(x) : x \in Committed} \cup NestedOnly \cup Challenges \cup Headers \cup Scalars
              \cup {"application.circuit_id"}
All == Components \cup {"data"}

\* What every internal circuit shows to the next proof.
Unified == {Commitment(b) : b \in Bridges} \cup Challenges \cup Scalars
Check(name, reads) == [name |-> name, reads |-> reads]
R(S) == {Rx(x) : x \in S}
Shared == {Check("raw", {"ab.a.rx", "ab.b.rx", "ab.c"}),
           Check("application", Headers \cup {"application.circuit_id", "application.rx", "data"}),
           Check("hashes_1", R({"circuits.hashes_1", "preamble", "outer_error"}) \cup Unified \cup Headers),
           Check("hashes_2", R({"circuits.hashes_2", "outer_error"}) \cup Unified),
           Check("inner_collapse", R({"circuits.inner_collapse", "preamble", "inner_error", "outer_error"}) \cup Unified),
           Check("outer_collapse", R({"circuits.outer_collapse", "preamble", "outer_error"}) \cup Unified),
           Check("compute_v", R({"circuits.compute_v", "preamble", "query", "eval"}) \cup Unified),
           Check("evaluation", {"p.poly.rx", "p.v", "challenges.u"}),
           Check("registry", {"query.registry_xy.rx", "challenges.x", "challenges.y"})}
Opening(x) == Check("opening", {Rx(x), Commitment(x)})
\* The other curve's side: steps over one table of points, and a scalar.
Nested == {Check("endoscaling", {Rx(s), "p.nested.endoscalar.rx", "p.nested.points.rx"}) : s \in Steps}
Verified == Shared \cup {Opening(x) : x \in Committed} \cup Nested
\* A commitment that the next proof does not use is not opened by it, nor is anything of the other curve.
Spare == {"s_prime.registry_wx0", "s_prime.registry_wx1", "inner_error.registry_wy", "f.poly"}
Unused == Spare \cup Bridges
Fused == Shared \cup {Opening(x) : x \in Committed \ Unused}
ChecksOf(then) == IF then = "verify" THEN Verified ELSE Fused

(* A presented proof: which components were changed, and how - "swap": for those of another valid   *)
(* proof, else for something of no proof -, which are equal in both, which commitments were made to  *)
(* fit changed polynomials, and which polynomials were changed to others that satisfy the same.      *)
Froms == {"A", "B"}
From(q, x) == IF x \in q.changed THEN (IF q.how = "swap" /\ x \notin q.again THEN {"B"} ELSE {}) ELSE IF x \in q.same THEN Froms ELSE {"A"}
Passes(q, k) == IF k.name = "opening"
                THEN \/ \E f \in Froms : \A x \in k.reads : f \in From(q, x)
                     \/ \E x \in k.reads : x \in q.again
                ELSE \E f \in Froms : \A x \in k.reads : IF x \in q.fit THEN f = "A" ELSE f \in From(q, x)
Accepted(q, then) == \A k \in ChecksOf(then) : Passes(q, k)
\* A step's own part may come from another proof of the same inputs: that is the other proof's data
\* proven anew. Other than that a proof is whole.
Own == {"application.circuit_id", "application.rx", "application.commitment", "data"} \cup Headers
\* What a circuit was run on beyond what it shows - wires of no gate in use, for one - is its own:
\* another trace of it that is committed to is no alteration.
Circuits == {"application"} \cup {x \in Triples : x \in {"circuits.hashes_1", "circuits.hashes_2", "circuits.inner_collapse", "circuits.outer_collapse", "circuits.compute_v"}}
Reprovable == {Rx(x) : x \in Circuits} \cup {Rx(s) : s \in Steps}
Folding == {"ab.a", "ab.b"}
Reproven(q) == (q.fit \cap {Rx(s) : s \in Steps})
               \cup UNION {{Rx(x), Commitment(x)} : x \in {y \in Circuits : Rx(y) \in q.fit /\ Commitment(y) \in q.again}}
WholeOn(q, T) == LET one(S) == \E f \in Froms : \A x \in (S \cap T) \ Reproven(q) : f \in From(q, x)
                 IN  one(Own) /\ one((All \ Own) \cup Headers)
Whole(q) == WholeOn(q, All)

\* Where the code falls short (recorded findings): sets of components that it does not hold together.
FoldedPair == UNION {{Rx(x), Commitment(x)} : x \in Folding}
Loose(then) == {FoldedPair} \cup
               IF then = "verify" THEN {{Rx(x), Commitment(x)} : x \in Spare} \cup {NestedOnly}
               ELSE {{x} : x \in NestedOnly \cup {Rx(b) : b \in Bridges \cup Spare} \cup {Commitment(x) : x \in Spare}}
=============================================================================
