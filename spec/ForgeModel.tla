----------------------------- MODULE ForgeModel ------------------------------
(* Every prover who departs from the protocol in up to Most values, of a small *)
(* protocol: whatever he does, no proof that he should not have is accepted.   *)
EXTENDS Forge
CONSTANT Most
SmallRx == {"Application", "Query"}
SmallMasks == {"PreambleStage"}
SmallCircuits == {"Hashes1Circuit", "ComputeVCircuit"}
Bases == {"leaf", "mix", "root"}
Ways(v) == CASE v = "ab.c" -> {"add", "fit"}
             [] v = "p.poly.rx" -> {"add", "bare", "vanish"}
             [] v \in Registries \cup {"application.rx", "ab.a.rx", "ab.b.rx", "f.poly.rx"} -> {"add", "bare"}
             [] \E s \in Sides : v = Suffix(s) -> {"add", "one"}
             [] OTHER -> {"add"}
Alterations == {[name |-> v, how |-> w, k |-> k] : <<v, w, k>> \in UNION {{v} \X Ways(v) \X (IF v \in Headers THEN 0 .. HeaderSize - 1 ELSE {0}) : v \in Made}}
VARIABLES base, k, h, alter
vars == <<base, k, h, alter>>
Init == base \in Bases /\ k = 0 /\ h = Holding(base) /\ alter = {}
\* The prover's next move, with some of its values forged.
Can(k1) == {a \in Alterations : a.name \in Prover[k1] \/ (k1 = Len(Prover) /\ a.name \in Committed)}
Picks(k1, n) == {{}} \cup {{a} : a \in IF n >= 1 THEN Can(k1) ELSE {}}
                \cup {S \in {{a, b} : <<a, b>> \in IF n >= 2 THEN Can(k1) \X Can(k1) ELSE {}} : Cardinality(Named(S)) = 2}
Next == /\ k < Len(Prover)
        /\ k' = k + 1
        /\ \E S \in Picks(k + 1, Most - Cardinality(alter)) : /\ alter' = alter \cup S
                                                               /\ h' = Move(h, k + 1, S)
        /\ UNCHANGED base
Done == k = Len(Prover)
\* An honest proof is accepted, and of others no more than may be.
Complete == Done /\ alter = {} => Failing(h) = {} /\ Accepted(h, alter)
SoundOK == Done => Sound(base, alter, Accepted(h, alter))
\* A single forging is seen by somebody, unless it is of no consequence.
Seen == Done /\ Cardinality(alter) = 1 => (Accepted(h, alter) <=> Free(base, alter) \/ Hole(alter))
\* What has been forged shows in what came of it: only values computed from it have it in them.
Causal == \A v \in DOMAIN h.went : \A x \in h.went[v] : x \in Named(alter)
\* No value is there before its move.
Ordered == \A v \in Named(alter) : \E j \in 1 .. k : v \in Prover[j] \cup Committed

\* Each claim is needed: there is a forging that it alone sees.
Only(c, b, v) == Forged(b, {[name |-> v, how |-> "add", k |-> 0]}).broken = {c}
ASSUME /\ Only("Hashes1Circuit", "mix", C("w")) /\ Only("Hashes2Circuit", "mix", C("mu"))
       /\ Only("InnerCollapseCircuit", "leaf", "outer_error.collapsed.0") /\ Only("OuterCollapseCircuit", "mix", "outer_error.error.0")
       /\ Only("ComputeVCircuit", "mix", "p.v") /\ Only("raw", "leaf", "ab.c") /\ Only("application", "mix", "application.rx")
\* Values altered after the fact: every one of the circuits' is seen.
Alone(c, b, v) == Tampered(b, {[name |-> v, how |-> "add", k |-> 0]}) = {c}
ASSUME /\ Alone("Hashes1Circuit", "mix", "left.challenges.w") /\ Alone("Hashes2Circuit", "mix", Bc("query"))
       /\ Alone("InnerCollapseCircuit", "mix", "inner_error.error.1.0") /\ Alone("OuterCollapseCircuit", "mix", "outer_error.error.0")
       /\ Alone("ComputeVCircuit", "mix", "p.v") /\ Alone("raw", "leaf", "ab.c") /\ Alone("application", "mix", "application.rx")
Unread(b) == {v \in Tamperable : Tampered(b, {[name |-> v, how |-> "add", k |-> 0]}) = {}}
ASSUME Unread("mix") = {} /\ Unread("leaf") = Outer
\* Everything the prover comes up with is in the circuits' sight.
ASSUME \A e \in Equations : e.target \cup e.from \subseteq Names
ASSUME \A i \in Identities : i.about \subseteq Names \cup {"claims", "ab.product"}
\* What is asked of polynomials: of each something, of each value something, and nothing else is there.
AskedPolys == {a.poly : a \in Asked}
AskedValues == {a.value : a \in Asked}
ASSUME AskedPolys = Evals
ASSUME AskedValues \ {"ax", "bx", "left.p.v", "right.p.v"} = Queries
ASSUME \A v \in {"ax", "bx"} : Given(v) \subseteq Queries
\* The values that nothing is worked out from are each met twice: what two polynomials are to agree on.
Met == {v \in Queries : Cardinality({a \in Asked : a.value = v}) > 1}
ASSUME Met = Queries \ (Given("ax") \cup Given("bx"))
\* The registry of each input hangs together with that of the step, and with every circuit that is looked up.
RECURSIVE Reach(_)
Reach(S) == LET more == S \cup {a.poly : a \in {a \in Asked : \E b \in Asked : b.poly \in S /\ b.value = a.value}} IN
            IF more = S THEN S ELSE Reach(more)
ASSUME Reach({"eval.registry_xy"}) = {"eval.registry_xy", "eval.registry_wy", "eval.registry_wx0", "eval.registry_wx1",
                                      "eval.left.registry_xy", "eval.right.registry_xy"}
\* Gates: a stage's come after those of its parent, and no two of a circuit's polynomials share any.
Sizes == {[p \in Stages |-> f[p]] : f \in [Stages -> 1 .. 2]}
ASSUME \A size \in Sizes : \A c \in DOMAIN Summed : \A g \in 1 .. 12 :
         LET n == Cardinality({p \in Summed[c] : Own(p, size, g)}) IN n = 1 \/ (c = "Hashes2Circuit" /\ n = 0)
\* So whatever strays is seen by a mask, unless it is put where it belongs.
ASSUME \A size \in Sizes : \A p, q \in Polys : \A g \in 1 .. 12 :
         Strays({p, q}, size, g) = {} <=> Own(p, size, g) /\ Own(q, size, g)
=============================================================================
