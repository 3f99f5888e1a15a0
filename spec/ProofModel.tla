----------------------------- MODULE ProofModel ------------------------------
(* Every change of a few components, every exchange with another proof: what the checks notice.     *)
EXTENDS Proof
CONSTANT Size    \* components changed at most
VARIABLES q, n
Names == All
Alike == {{}, Headers, Headers \cup {"application.circuit_id"}, Headers \cup {"application.circuit_id", "data"}}
Groups == {{Rx(x), Commitment(x)} : x \in Committed} \cup {NestedOnly, Own, All \ Own, (All \ Own) \cup Headers, Unified, All, Challenges, Headers,
           {"ab.a.rx", "ab.a.commitment", "ab.b.rx", "ab.b.commitment", "ab.c"}}
Init == /\ n = 0
        /\ \E how \in {"swap", "junk"}, same \in Alike : q = [changed |-> {}, how |-> how, same |-> same, again |-> {}, fit |-> {}]
Put(S) == q' = [q EXCEPT !.changed = @ \cup (IF q.how = "swap" THEN S \ q.same ELSE S)]
\* Data are not altered into nothing's: other claims are those of histories.
Next == /\ n < Size /\ n' = n + 1
        /\ \/ \E x \in Names : (q.how = "junk" => x # "data") /\ Put({x})
           \/ q.how = "swap" /\ \E g \in Groups : Put(g)
           \/ q.how = "junk" /\ \E x \in Committed :
                q' = [q EXCEPT !.changed = @ \cup {Rx(x), Commitment(x)}, !.again = @ \cup {Commitment(x)}]
           \* Other traces, with and without commitments; other polynomials with the same product.
           \/ q.how = "junk" /\ \E x \in Circuits :
                \/ q' = [q EXCEPT !.changed = @ \cup {Rx(x), Commitment(x)}, !.again = @ \cup {Commitment(x)}, !.fit = @ \cup {Rx(x)}]
                \/ Rx(x) \notin q.changed /\ q' = [q EXCEPT !.changed = @ \cup {Rx(x)}, !.fit = @ \cup {Rx(x)}]
           \/ q.how = "junk" /\ \E s \in Steps : q' = [q EXCEPT !.changed = @ \cup {Rx(s)}, !.fit = @ \cup {Rx(s)}]
           \/ q.how = "junk" /\ FoldedPair \cap q.changed = {} /\
                q' = [q EXCEPT !.changed = @ \cup FoldedPair, !.again = @ \cup {Commitment(x) : x \in Folding}, !.fit = @ \cup {Rx(x) : x \in Folding}]
\* Everything is read by some check.
Covered == \A x \in All : \E k \in Verified : x \in k.reads
Thens == {"verify", "fuse"}
\* What is whole passes.
Complete == Whole(q) => \A t \in Thens : Accepted(q, t)
\* What passes is whole, but for what is known to be loose.
Tight(t) == LET slack == UNION {h \in Loose(t) : h \subseteq q.changed \cup q.same \/ h \cap q.changed = {}}
            IN  Accepted(q, t) => WholeOn(q, All \ slack)
Sound == \A t \in Thens : Tight(t)
\* The next proof notices no more than the verifier.
Stricter == Accepted(q, "verify") => Accepted(q, "fuse")
\* No single component can be altered unnoticed by the verifier.
Single == (n = 1 /\ Cardinality(q.changed) = 1 /\ ~Whole(q)) => ~Accepted(q, "verify")
Shape == Cardinality(Components) = 81
=============================================================================
