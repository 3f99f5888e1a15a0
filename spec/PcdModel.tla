------------------------------ MODULE PcdModel -------------------------------
(* The machine behind an application: proofs are what fusing computes, verdicts what verifying      *)
(* finds in them. Every history up to a length, every witness, honest or not.                       *)
EXTENDS Pcd
CONSTANTS MaxItems, Witnesses
VARIABLES pool,    \* the items: [tree, pcd], pcd = [ty, data, proof]
          cache    \* the application's seeded proof, made when first needed
vars == <<pool, cache>>

\* A proof: its own circuit satisfied for the headers and output it names, and the folded claim that
\* the claims of both inputs hold.
Header(p) == <<p.ty, p.data>>
Proof(step, l, r, out, own, fold) == [step |-> step, left |-> Header(l), right |-> Header(r), out |-> out, own |-> own, fold |-> fold]
TrivialProof == [step |-> "none", left |-> <<"unit", <<>>>>, right |-> <<"unit", <<>>>>, out |-> <<"none", <<>>>>, own |-> FALSE, fold |-> TRUE]
TrivialPcd == [ty |-> "unit", data |-> <<>>, proof |-> TrivialProof]
\* The claims that verifying checks and fusing folds: the step's circuit, with the output header that
\* is claimed, and the claim folded before.
Claims(p, ty, data) == p.own /\ p.out = <<ty, data>> /\ p.fold
Verify(p, ty, data, in) == in = "same" /\ Claims(p.proof, ty, data)
Fuse(s, w, l, r) ==
  LET data == Data(s, w, l.data, r.data)
      out == TypeOf[s].o
      base == l.ty = "unit" /\ r.ty = "unit"
      fold == base \/ (Claims(l.proof, l.ty, l.data) /\ Claims(r.proof, r.ty, r.data))
  IN [ty |-> out, data |-> data, proof |-> Proof(s, l, r, <<out, data>>, Holds(s, w, l.data, r.data), fold)]
Seed(s, w) == Fuse(s, w, TrivialPcd, TrivialPcd)
SeededTrivial == Fuse("nil", 0, TrivialPcd, TrivialPcd)
Rerandomize(p, trivial) ==
  [ty |-> p.ty, data |-> p.data,
   proof |-> Proof("rr", p, trivial, <<p.ty, p.data>>, TRUE,
                   (p.ty = "unit" /\ trivial.ty = "unit") \/ (Claims(p.proof, p.ty, p.data) /\ Claims(trivial.proof, trivial.ty, trivial.data)))]

Tree(s, w, l, r) == [s |-> s, w |-> w, l |-> l, r |-> r]
Init == pool = <<>> /\ cache = <<>>
Add(t, p) == pool' = Append(pool, [tree |-> t, pcd |-> p])
DoSeed == \E s \in {"leaf", "nil"}, w \in Witnesses :
            (s = "nil" => w = CHOOSE x \in Witnesses : TRUE) /\ Add(Tree(s, w, <<>>, <<>>), Seed(s, w)) /\ UNCHANGED cache
UsesW == {"leaf", "mix", "root"}
DoFuse == \E s \in StepNames, i, j \in DOMAIN pool, w \in Witnesses :
            /\ s \in UsesW \/ w = CHOOSE x \in Witnesses : TRUE
            /\ WellTyped(s, pool[i].pcd, pool[j].pcd)
            /\ Add(Tree(s, w, <<pool[i].tree>>, <<pool[j].tree>>), Fuse(s, w, pool[i].pcd, pool[j].pcd))
            /\ UNCHANGED cache
DoRr == \E i \in DOMAIN pool :
            /\ cache' = IF cache = <<>> THEN <<SeededTrivial>> ELSE cache
            /\ Add(Tree("rr", 0, <<pool[i].tree>>, <<>>), Rerandomize(pool[i].pcd, cache'[1]))
Next == Len(pool) < MaxItems /\ (DoSeed \/ DoFuse \/ DoRr)

\* Every item carries what its history computes, and is accepted exactly if its history is in order.
Item(x, e) == x.pcd.ty = e.ty /\ x.pcd.data = e.data /\ Verify(x.pcd, e.ty, e.data, "same") \in Verdicts(e, e.ty, e.data, "same")
Carries == \A i \in DOMAIN pool : Item(pool[i], Eval(pool[i].tree))
\* Under nothing else.
Alone == \A i \in DOMAIN pool : \A ty \in Types \cup {"alt"}, d \in {pool[k].pcd.data : k \in DOMAIN pool} \cup {<<0>>} :
            (ty # pool[i].pcd.ty \/ d # pool[i].pcd.data) => ~Verify(pool[i].pcd, ty, d, "same")
\* Honest histories are accepted throughout.
RECURSIVE Honest(_)
Honest(t) == LET ok(c) == c = <<>> \/ Honest(c[1])
                 d(c) == IF c = <<>> THEN <<>> ELSE Eval(c[1]).data
             IN  ok(t.l) /\ ok(t.r) /\ (t.s = "rr" \/ Holds(t.s, t.w, d(t.l), d(t.r)))
Complete == \A i \in DOMAIN pool : Honest(pool[i].tree) => Verify(pool[i].pcd, pool[i].pcd.ty, pool[i].pcd.data, "same")
\* And dishonest ones rejected, unless forgotten by a step that starts afresh, or laundered.
RECURSIVE Guilty(_)
Guilty(t) == LET of(c) == IF c = <<>> THEN Trivial ELSE Eval(c[1])
             IN  \/ t.s # "rr" /\ ~Holds(t.s, t.w, of(t.l).data, of(t.r).data)
                 \/ t.s # "rr" /\ ~Base(of(t.l), of(t.r)) /\ ((t.l # <<>> /\ Guilty(t.l[1])) \/ (t.r # <<>> /\ Guilty(t.r[1])))
                 \/ t.s = "rr" /\ of(t.l).ty # "unit" /\ Guilty(t.l[1])
Sound == \A i \in DOMAIN pool : Guilty(pool[i].tree) => ~Verify(pool[i].pcd, pool[i].pcd.ty, pool[i].pcd.data, "same")
\* Rerandomizing keeps everything, for what carries data.
Preserves == \A i \in DOMAIN pool : pool[i].tree.s = "rr" =>
               \E k \in 1 .. i - 1 : /\ pool[k].tree = pool[i].tree.l[1]
                                     /\ Header(pool[k].pcd) = Header(pool[i].pcd)
                                     /\ pool[k].pcd.ty # "unit" =>
                                          Verify(pool[k].pcd, pool[k].pcd.ty, pool[k].pcd.data, "same")
                                          = Verify(pool[i].pcd, pool[i].pcd.ty, pool[i].pcd.data, "same")
\* The seeded proof is itself in order, whenever it is made.
CacheOk == cache = <<>> \/ (cache[1] = SeededTrivial /\ Verify(cache[1], "unit", <<>>, "same"))
=============================================================================
