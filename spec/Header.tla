------------------------------- MODULE Header -------------------------------
(* Headers: data of a fixed shape, written out as exactly n elements: the data, zeros, the suffix. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

\* Shapes: "unit", an element, a boolean, a list of k of one shape, a sequence of different ones.
RECURSIVE Size(_)
Size(s) == CASE s.t = "unit" -> 0
             [] s.t \in {"elem", "bool"} -> 1
             [] s.t = "vec" -> s.k * Size(s.of[1])
             [] s.t = "seq" -> FoldLeft(LAMBDA acc, x : acc + Size(x), 0, s.of)
\* Whether the position of a flat list of data holds a boolean.
RECURSIVE Kinds(_)
Kinds(s) == CASE s.t = "unit" -> <<>>
              [] s.t \in {"elem", "bool"} -> <<s.t>>
              [] s.t = "vec" -> FlattenSeq([i \in 1 .. s.k |-> Kinds(s.of[1])])
              [] s.t = "seq" -> FlattenSeq([i \in DOMAIN s.of |-> Kinds(s.of[i])])
\* The value a position encodes.
Written(kind, v) == IF kind = "bool" THEN v % 2 ELSE v

\* A header type has a shape and a suffix value. Its encoding in n elements, or a refusal.
Fits(s, n) == Size(s) <= n - 1
Encode(s, sfx, data, n) ==
  LET k == Kinds(s) IN
  [i \in 1 .. n |-> IF i = n THEN sfx ELSE IF i <= Len(k) THEN Written(k[i], data[i]) ELSE 0]
Encoded(s, sfx, data, n) == IF Fits(s, n) THEN [ok |-> Encode(s, sfx, data, n)] ELSE [err |-> "encoding"]

\* What a step's circuit shows: its three headers, in order.
StepOut(l, r, o, n) ==
  LET all == <<Encoded(l.s, l.sfx, l.data, n), Encoded(r.s, r.sfx, r.data, n), Encoded(o.s, o.sfx, o.data, n)>> IN
  IF \E i \in 1 .. 3 : "err" \in DOMAIN all[i] THEN [err |-> "encoding"]
  ELSE [ok |-> all[1].ok \o all[2].ok \o all[3].ok]

\* Suffixes are machine words, here of digits in 0 .. base - 1, most significant first. The lowest
\* values belong to internal headers: 0 is of no header, 1 of the trivial one.
Internal == 2
\* w + k, and whether there is such a word.
RECURSIVE AddSmall(_, _, _)
AddSmall(w, k, base) ==
  IF k = 0 THEN [ok |-> w]
  ELSE IF w = <<>> THEN [err |-> "overflow"]
  ELSE LET d == w[Len(w)] + k
           rest == AddSmall(SubSeq(w, 1, Len(w) - 1), d \div base, base)
       IN  IF "err" \in DOMAIN rest THEN rest ELSE [ok |-> Append(rest.ok, d % base)]
AppSuffix(w, base) == AddSmall(w, Internal, base)
Small(n, v) == [i \in 1 .. n |-> IF i = n THEN v ELSE 0]
=============================================================================
