-------------------------------- MODULE Pcd ----------------------------------
(* An application that makes proof-carrying data: its steps, the histories they permit, what each   *)
(* item of such a history carries and whether the verifier accepts it.                              *)
(*                                                                                                   *)
(* A history is a derivation tree: [s |-> step, w |-> witness, l |-> children, r |-> children], where *)
(* l and r are sequences of at most one tree. A step without children was seeded; "rr" rerandomizes  *)
(* its left child.                                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

StepNames == {"leaf", "mix", "both", "weigh", "drop", "root", "nil"}
Types == {"unit", "num", "pair"}
TypeOf == [leaf |-> [l |-> "unit", r |-> "unit", o |-> "num"],
           mix |-> [l |-> "num", r |-> "num", o |-> "num"],
           both |-> [l |-> "num", r |-> "num", o |-> "pair"],
           weigh |-> [l |-> "pair", r |-> "num", o |-> "num"],
           drop |-> [l |-> "num", r |-> "unit", o |-> "unit"],
           root |-> [l |-> "unit", r |-> "num", o |-> "num"],
           nil |-> [l |-> "unit", r |-> "unit", o |-> "unit"]]
\* What a step computes.
Data(s, w, l, r) == CASE s = "leaf" -> <<w>>
                      [] s = "mix" -> <<2 * l[1] + w * r[1]>>
                      [] s = "both" -> <<l[1], r[1]>>
                      [] s = "weigh" -> <<l[1] + 3 * l[2] + 5 * r[1]>>
                      [] s = "drop" -> <<>>
                      [] s = "root" -> <<w>>
                      [] s = "nil" -> <<>>
\* What it demands.
Holds(s, w, l, r) == s = "root" => w * w = r[1]

\* What seeding starts from; no proof by itself.
Trivial == [ty |-> "unit", data |-> <<>>, ok |-> "no"]
Both3(a, b) == IF "no" \in {a, b} THEN "no" ELSE IF "laundered" \in {a, b} THEN "laundered" ELSE "yes"
\* A step both of whose inputs carry nothing starts afresh: it does not ask how they were proven.
Base(l, r) == l.ty = "unit" /\ r.ty = "unit"
Made(s, w, l, r) == [ty |-> TypeOf[s].o, data |-> Data(s, w, l.data, r.data),
                     ok |-> IF ~Holds(s, w, l.data, r.data) THEN "no" ELSE IF Base(l, r) THEN "yes" ELSE Both3(l.ok, r.ok)]
\* The same type and data; the same verdict is due. An invalid item that carries nothing is one that
\* the code makes valid ("laundered": a recorded finding); what follows from it is tracked.
Again(l) == IF l.ty = "unit" /\ l.ok # "yes" THEN [l EXCEPT !.ok = "laundered"] ELSE l

RECURSIVE Eval(_)
Eval(t) == LET l == IF t.l = <<>> THEN Trivial ELSE Eval(t.l[1])
               r == IF t.r = <<>> THEN Trivial ELSE Eval(t.r[1])
           IN  IF t.s = "rr" THEN Again(l) ELSE Made(t.s, t.w, l, r)
WellTyped(s, l, r) == l.ty = TypeOf[s].l /\ r.ty = TypeOf[s].r

\* Verdicts allowed for an item, presented with type ty and data under an application.
Verdicts(x, ty, data, in) == IF ty # x.ty \/ data # x.data \/ in # "same" THEN {FALSE}
                             ELSE CASE x.ok = "yes" -> {TRUE} [] x.ok = "no" -> {FALSE} [] OTHER -> {FALSE, TRUE}
=============================================================================
