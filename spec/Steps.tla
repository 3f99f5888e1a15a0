------------------------------- MODULE Steps --------------------------------
(* Registering the steps of an application, one after another.                                      *)
EXTENDS Header

\* Header types by name, and the suffixes they declare. The trivial header belongs to every application.
\* Suffixes: <<"app", k>> is the application's k-th, <<"int", k>> one of the framework's.
SuffixOf == [unit |-> <<"int", 1>>, A |-> <<"app", 0>>, B |-> <<"app", 0>>, C |-> <<"app", 1>>, T |-> <<"int", 1>>]
Types == DOMAIN SuffixOf

\* The builder: how many steps, which type owns which suffix.
New == [ok |-> TRUE, n |-> 0, owner |-> (SuffixOf["unit"] :> "unit")]
Admit(b, t) ==
  IF ~b.ok THEN b
  ELSE IF SuffixOf[t] \in DOMAIN b.owner THEN [b EXCEPT !.ok = b.owner[SuffixOf[t]] = t]
  ELSE [b EXCEPT !.owner = (SuffixOf[t] :> t) @@ @]
\* Registering consumes the builder: a refusal leaves nothing to go on with.
Register(b, s) ==
  IF ~b.ok \/ s.i # b.n THEN [b EXCEPT !.ok = FALSE]
  ELSE LET a == Admit(Admit(Admit(b, s.o), s.l), s.r)
       IN IF a.ok THEN [a EXCEPT !.n = @ + 1] ELSE a
Build(steps) == FoldLeft(Register, New, steps)

\* What the documentation promises.
TypesOf(steps) == {"unit"} \cup UNION {{steps[i].l, steps[i].r, steps[i].o} : i \in DOMAIN steps}
WellFormed(steps) ==
  /\ \A i \in DOMAIN steps : steps[i].i = i - 1
  /\ \A t, u \in TypesOf(steps) : SuffixOf[t] = SuffixOf[u] => t = u
\* The results of the registrations, up to and including the first refusal.
RECURSIVE Results(_, _)
Results(steps, k) ==
  IF k > Len(steps) THEN <<>>
  ELSE IF WellFormed(SubSeq(steps, 1, k)) THEN <<"ok">> \o Results(steps, k + 1)
  ELSE <<"initialization">>
=============================================================================
