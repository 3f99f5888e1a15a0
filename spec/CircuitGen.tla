----------------------------- MODULE CircuitGen -----------------------------
(* Writes every program up to a size as a scenario for the real code.                              *)
EXTENDS Circuit, TLC, Json, IOUtils
CONSTANTS EmitOps, EmitDepth
VARIABLE x
K(v) == [x |-> "k", k |-> v]
Leaf(n) ==
  { [op |-> [o |-> "alloc", v |-> <<K(7 + n)>>], k |-> 1],
    [op |-> [o |-> "mul", v |-> <<[x |-> "r", r |-> n - 1, k |-> 0], [x |-> "r", r |-> 0, k |-> 1], [x |-> "r", r |-> n - 1, k |-> n]>>], k |-> 3],
    [op |-> [o |-> "gate", v |-> <<K(5), K(0), K(0), [x |-> "r", r |-> n - 1, k |-> 2]>>], k |-> 4],
    [op |-> [o |-> "add", t |-> <<[o |-> "s", r |-> n - 1], [o |-> "g", c |-> [t |-> "Two", v |-> 0]], [o |-> "a", r |-> n \div 2]>>], k |-> 1],
    [op |-> [o |-> "zero", t |-> <<[o |-> "t", r |-> n - 1, c |-> [t |-> "Arbitrary", v |-> 11]], [o |-> "a", r |-> 0]>>], k |-> 0] }
RECURSIVE Bodies(_, _, _)
\* All <<ops, registers>> using exactly q operations from n registers.
Bodies(q, d, n) ==
  IF q = 0 THEN {[b |-> <<>>, n |-> n]}
  ELSE
       UNION {{[b |-> <<l.op>> \o r.b, n |-> r.n] : r \in Bodies(q - 1, d, n + l.k)} : l \in Leaf(n)} \cup
       (IF d = 0 THEN {} ELSE
        UNION {UNION {{[b |-> <<[o |-> "call", pred |-> p, ins |-> <<n - 1, 0, n \div 2>>, body |-> s.b, outs |-> <<s.n - 1, 1, s.n \div 2>>]>> \o r.b, n |-> r.n] :
                         r \in Bodies(q - 1 - m, d, n + 3), p \in BOOLEAN} :
                      s \in Bodies(m, d - 1, 4)} : m \in 0 .. q - 1})
All == UNION {Bodies(q, EmitDepth, 1) : q \in 0 .. EmitOps}
Scenario(p) == [prog |-> [body |-> p.b, outs |-> IF p.n > 2 THEN <<p.n - 1, 1>> ELSE <<p.n - 1>>]]

(* Programs that are large in one way each, up to what the rank holds.                             *)
Reg(r, k) == [x |-> "r", r |-> r, k |-> k]
Alloc(r, k) == [o |-> "alloc", v |-> <<Reg(r, k)>>]
Times(a, b) == [o |-> "mul", v |-> <<Reg(a, 0), Reg(b, 0), [x |-> "p", r |-> a, s |-> b, k |-> 0]>>]
Call(p, ins, body, outs) == [o |-> "call", pred |-> p, ins |-> ins, body |-> body, outs |-> outs]
Plus(a, b) == [o |-> "add", t |-> <<[o |-> "a", r |-> a], [o |-> "s", r |-> b]>>]
Nil(a, b) == [o |-> "zero", t |-> <<[o |-> "a", r |-> a], [o |-> "s", r |-> b]>>]
\* `n` routines in a row, each of `m` gates; predicted where `pred` says so.
Row(n, m, pred(_)) ==
  LET call(i) == Call(pred(i), <<(IF i = 1 THEN 1 ELSE 3 * i - 4), 0, 1>>,
                      [j \in 1 .. m |-> Times(IF j = 1 THEN 1 ELSE 3 * j, 1)], <<3 * m + 3, 1, 3 * m + 2>>)
  IN [b |-> <<Alloc(0, 4)>> \o [i \in 1 .. n |-> call(i)], n |-> 2 + 3 * n]
Rows == {Row(n, 1, LAMBDA i : FALSE) : n \in {10, 11, 12, 21, 29}}
        \cup {Row(n, 1, LAMBDA i : TRUE) : n \in {11, 29}}
        \cup {Row(n, 1 + (n % 2), LAMBDA i : i % 3 = 0) : n \in {12, 13, 14}}
        \cup {Row(40, 0, LAMBDA i : i % 2 = 0)}
\* A routine within a routine within a routine, with a gate and a sum on the way in and on the way out.
RECURSIVE Nest(_, _)
Nest(n, pred) ==
  IF n = 0 THEN <<Times(1, 2)>>
  ELSE <<Times(1, 2), Plus(6, 1), Call(pred /\ n % 2 = 0, <<7, 6, 1>>, Nest(n - 1, pred), <<6, 1, 2>>), Nil(7, 7), Alloc(8, 1)>>
Nests == {[b |-> <<Alloc(0, 2), Alloc(0, 5), Call(p, <<1, 2, 0>>, Nest(n, p), <<6, 1, 2>>)>>, n |-> 6] : n \in {6, 13}, p \in BOOLEAN}
\* Rows of routines that call rows of routines.
Inner(i) == [j \in 1 .. i |-> Call(j % 2 = 0, <<1, 2, 1>>, <<Times(1, 1), Times(2, j % 3)>>, <<6, 4, 5>>)]
Grove(n, m) == [b |-> <<Alloc(0, 1), Alloc(0, 2)>> \o [i \in 1 .. n |-> Call(i % 3 = 1, <<i, 1, 2>>, Inner(1 + ((i * m) % 3)) \o <<Alloc(4, i)>>, <<4, 5, 6>>)], n |-> 3 + 3 * n]
Groves == {Grove(n, m) : n \in {3, 5}, m \in {1, 2}}
\* Sums of sums: each used, or only the last, or only one in the middle.
Sums(n, used(_)) ==
  [b |-> <<Alloc(0, 1), Alloc(0, 2)>> \o [i \in 1 .. n |-> Plus(i + 1, 1 + (i % 2))]
         \o FlattenSeq([i \in 1 .. n |-> IF used(i) THEN <<Nil(i + 2, i + 2), [o |-> "zero", t |-> <<[o |-> "a", r |-> i + 2], [o |-> "s", r |-> i + 1], [o |-> "a", r |-> 1 + (i % 2)]>>]>> ELSE <<>>]),
   n |-> 3 + n]
Towers == {Sums(20, LAMBDA i : TRUE), Sums(30, LAMBDA i : i = 30), Sums(30, LAMBDA i : i = 11), Sums(25, LAMBDA i : i % 7 = 3), Sums(60, LAMBDA i : i > 40)}
\* Many wires, many constraints, long combinations, many outputs.
Wires(n) == [i \in 1 .. n |-> Alloc(i - 1, 3 * i)]
Long(n) == [o |-> "zero", t |-> [i \in 1 .. n |-> [o |-> "a", r |-> i]] \o [i \in 1 .. n |-> [o |-> "s", r |-> n + 1 - i]]]
Weighted(n) == [o |-> "add", t |-> FlattenSeq([i \in 1 .. n |-> <<[o |-> "g", c |-> [t |-> "Arbitrary", v |-> i + 1]], [o |-> "t", r |-> i, c |-> [t |-> "NegativeArbitrary", v |-> 5 * i]]>>])]
Wide == {[b |-> Wires(n), n |-> n + 1] : n \in {40, 61, 62}} \cup {[b |-> Wires(30) \o <<Long(30), Weighted(30), Nil(31, 31)>>, n |-> 32]}
        \cup {[b |-> Wires(6) \o [i \in 1 .. m |-> Nil(1 + (i % 6), 1 + (i % 6))], n |-> 7] : m \in {64, 100, 122}}
Full == {[prog |-> [body |-> Wires(20), outs |-> [i \in 1 .. k |-> 1 + ((7 * i) % 20)]]] : k \in {12, 20, 40}}
Large == {Scenario(p) : p \in Rows \cup Nests \cup Groves \cup Towers \cup Wide} \cup Full
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({Scenario(p) : p \in All}) \o SetToSeq(Large))
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
