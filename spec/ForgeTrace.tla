----------------------------- MODULE ForgeTrace ------------------------------
(* What the code made of the forgings.                                        *)
EXTENDS Forge, IOUtils, Json
CONSTANT Chunks
VARIABLE c
Trace == ndJsonDeserialize(IOEnv.TRACE)
\* The values that the prover has, and what circuits there are.
NamesOK(e) == Range(e.prover) = Made
Went(e) == "broken" \in DOMAIN e.out
ForgeOK(e) == LET alter == Range(e.alter) f == Forged(e.base, alter) IN
              /\ Range(e.done) = Named(alter)
              /\ Went(e)
              /\ Range(e.out.broken) = f.broken
              /\ e.out.verdict = f.accepted
              /\ Range(e.out.changed) = Changed(alter)
              /\ Sound(e.base, alter, e.out.verdict)
\* Values that are exchanged may be the same.
Swap(a) == a.how = "swap"
Touched(e) == {a \in Range(e.alter) : a.name \in Range(e.out.done)}
RelationOK(e) == /\ Went(e)
                 /\ \A a \in Range(e.alter) : Swap(a) \/ a \in Touched(e)
                 /\ Range(e.out.broken) = Tampered(e.base, Touched(e))
\* Each polynomial is asked for what it should be, at every point where it should be; and all are summed up.
TermOK(t, a) == /\ Range(t.poly) = {a.poly}
                /\ t.at = a.at
                /\ Range(t.direct) = (IF a.value \in {"ax", "bx"} THEN {} ELSE {a.value})
                /\ Range(t.through) = (IF a.value \in {"ax", "bx"} THEN Given(a.value) ELSE {})
WeighOK(e) == /\ "terms" \in DOMAIN e.out
              /\ Len(e.out.terms) = Cardinality(Asked)
              /\ \A a \in Asked : \E i \in DOMAIN e.out.terms : TermOK(e.out.terms[i], a)
              /\ Len(e.out.summed) = Cardinality(Evals)
              /\ {Range(e.out.summed[i]) : i \in DOMAIN e.out.summed} = {{v} : v \in Evals}
Size(e) == [p \in Stages |-> e.layout[p].gates]
LayoutOK(e) == \A p \in DOMAIN e.layout : e.layout[p].first = Start(p, Size(e))
MoveOK(e) == LET ps == {e.from, e.to} \ {""} s == Strays(ps, Size(e), e.gate) IN
             /\ Went(e)
             /\ LayoutOK(e)
             /\ Range(e.out.broken) \cap Masks = s
             /\ Range(e.out.broken) \ Masks \subseteq Unsure(ps)
\* Where both inputs are such, one input's faults do not make up for the other's.
Amiss(e, base, own) == IF "from" \in DOMAIN e THEN own \cap Masks = Strays({e.from}, Size(e), e.gate) ELSE own = Tampered(base, Range(e.alter))
HeirOK(e) == /\ "own" \in DOMAIN e.out
             /\ LET own == Range(e.out.own) its == Range(e.out.its) IN
                /\ Amiss(e, e.base, own)
                /\ IF "both" \in DOMAIN e THEN Amiss(e, e.other, its) ELSE its = {}
                /\ Range(e.out.broken) = Heir(own \cup its, Range(e.alter))
                /\ own \cup its # {} => ~e.out.verdict
BindOK(e) == LET a == e.alter[1] IN
             /\ "changed" \in DOMAIN e.out
             /\ \E s \in Sides : \E x \in Parts : a.name = Of(s, x) /\ Range(e.out.changed) = BoundBy(x)
\* The same proof may be an input more than once, and what is made of nothing may be equal.
HoldsOK(e) == /\ Range(e.parts) = Parts
              /\ DOMAIN e.holds = Nested_
              /\ \A x \in Nested_ : IF e.base = "leaf" THEN HeldBy(x) \subseteq Range(e.holds[x]) ELSE HeldBy(x) = Range(e.holds[x])
CaseOK(e) == CASE e.kind = "names" -> NamesOK(e)
               [] e.kind = "forge" -> ForgeOK(e)
               [] e.kind = "heir" -> HeirOK(e)
               [] e.kind = "bind" -> BindOK(e)
               [] e.kind = "holds" -> HoldsOK(e)
               [] e.kind = "weigh" -> WeighOK(e)
               [] e.kind = "relation" -> RelationOK(e)
               [] e.kind = "move" -> MoveOK(e)

Len_ == Len(Trace)
Init == c \in {<<k, k - Chunks>> : k \in 1 .. (IF Len_ < Chunks THEN Len_ ELSE Chunks)}
Next == c[2] + Chunks <= Len_ /\ c' = <<c[1], c[2] + Chunks>>
Ok == c[2] > 0 => CaseOK(Trace[c[2]])
=============================================================================
