----------------------------- MODULE ShapesGen ------------------------------
(* Chooses the struct definitions to be compiled against the real derive macros.                   *)
EXTENDS Shapes, TLC, IOUtils, Json, FiniteSets
CONSTANTS Triples, Long, Trees, Widest, Seed

M(a, t) == Fld(a, FALSE, t)
S(a, t) == Fld(a, TRUE, t)
R(fs) == Rec("std", fs)
Basic == <<S("wire", Unit), S("value", Unit), M("phantom", Unit), M("gadget", Elem), M("none", Bit),
           S("gadget", Elem), M("gadget", Probe), S("none", Probe)>>
B == DOMAIN Basic
Singles == [i \in B |-> R(<<Basic[i]>>)]
Pairs == FlattenSeq([i \in B |-> [j \in B |-> R(<<Basic[i], Basic[j]>>)]])
(* A linear congruential sequence: a fixed sample for a given seed.                                *)
Rnd(n, m) == ((((n + 7 * Seed) * 7919 + 104729) % 99991) * 131 % 9973) % m
Nth(seq, n) == seq[1 + Rnd(n, Len(seq))]
TripleShapes == [n \in 1 .. Triples |-> R(<<Nth(Basic, 3 * n), Nth(Basic, 3 * n + 1), Nth(Basic, 3 * n + 2)>>)]

In1 == R(<<M("gadget", Elem), S("gadget", Bit), M("none", Probe)>>)
In2 == R(<<S("value", Unit), S("wire", Unit), M("none", Bit)>>)
In3 == R(<<M("gadget", In1), M("gadget", Pair(Bit, Elem))>>)
Empty == R(<<>>)
Types == <<Elem, Bit, Probe, Pair(Unit, Bit), Pair(Elem, Bit), Pair(Probe, Unit), Arr(2, Elem), Arr(3, Bit), Arr(1, Probe), Arr(0, Elem),
           Vec(2, Elem), Vec(3, Probe), Vec(0, Bit), Vec(1, Pair(Elem, Bit)), Boxed(Bit), Boxed(Pair(Elem, Probe)),
           Dem(Elem), Dem(Pair(Bit, Elem)), Dem(In1), Dem(In2), Dem(Dem(Bit)), Dem(Arr(2, In2)), Pair(Pair(Elem, Bit), Arr(2, Probe)),
           Arr(2, Vec(2, Elem)), Vec(2, Arr(2, Bit)), Boxed(Vec(2, Boxed(Probe))), In1, In2, In3, Empty, Arr(2, In1), Vec(2, In2),
           Boxed(In3), Pair(In1, In2), Pair(In2, Dem(In3)), Vec(2, Dem(In1)), Arr(2, Pair(Bit, Dem(Elem))), Boxed(Dem(Boxed(In1)))>>
(* Each composite type alone, before and after another field, marked and unmarked.                 *)
Nested == FlattenSeq([i \in DOMAIN Types |->
  <<R(<<M("gadget", Types[i])>>), R(<<M("none", Types[i]), Nth(Basic, i)>>), R(<<Nth(Basic, i + 50), S("gadget", Types[i]), M("gadget", Probe)>>)>>])
Choice == Basic \o [i \in DOMAIN Types |-> M("gadget", Types[i])] \o [i \in DOMAIN Types |-> Fld("none", i % 3 = 0, Types[i])]
LongShapes == [n \in 1 .. Long |-> R([i \in 1 .. 4 + Rnd(n, 6) |-> Nth(Choice, 100 * n + i)])]
(* The ways a definition can be parameterised.                                                     *)
Headers == <<"named", "first", "curve", "over", "nest", "assoc">>
Bodies == <<<<M("gadget", Elem), M("none", In1)>>, <<S("wire", Unit), S("value", Unit), M("gadget", Bit)>>,
            <<M("phantom", Unit), M("gadget", Dem(In1)), M("none", Vec(2, Bit)), S("none", Probe)>>>>
Param == FlattenSeq([h \in DOMAIN Headers |-> [b \in DOMAIN Bodies |-> Rec(Headers[h], Bodies[b])]])
Sized == FlattenSeq([n \in 1 .. 4 |->
  <<Rec("const", <<M("gadget", Elem), M("gadget", Arr(n - 1, Bit))>>), Rec("const", <<M("none", Arr(n, In1)), M("gadget", Elem), M("gadget", Arr(n, Probe))>>),
    Rec("len", <<M("gadget", Vec(n - 1, Probe)), M("none", Bit)>>), Rec("len", <<M("none", Elem), M("gadget", Vec(n, In2)), S("value", Unit)>>)>>])
Kinded == [i \in 1 .. 8 |-> Rec("kind", <<M("gadget", Types[<<1, 2, 5, 7, 11, 15, 27, 28>>[i]]), M("none", Bit)>>)]
NestedParam == <<R(<<M("gadget", Param[1]), M("none", Sized[2])>>), R(<<M("none", Boxed(Kinded[3])), M("gadget", Param[11])>>),
                 Rec("named", <<M("gadget", Sized[3]), M("gadget", Arr(2, Param[13]))>>), R(<<M("none", Dem(Kinded[7])), S("wire", Unit), M("gadget", Dem(Param[2]))>>)>>
(* Long vectors and arrays, of lengths on both sides of powers of two.                              *)
Sizes == SelectSeq(<<5, 7, 8, 9, 13, 16, 17, 31, 33, 64, 65, 100>>, LAMBDA n : n <= Widest)
Large == FlattenSeq([i \in DOMAIN Sizes |->
  LET n == Sizes[i] IN <<R(<<M("gadget", Vec(n, Nth(<<Bit, Probe, Pair(Elem, Bit)>>, n))), M("none", Bit)>>),
                         R(<<M("none", Elem), M("none", Arr(n, Nth(<<Bit, Probe, In2>>, n + 1)))>>),
                         R(<<S("gadget", Vec(n, Elem)), M("gadget", Vec(n, Probe))>>)>>])
(* Runs of equal fields, and fields that come back later.                                          *)
Same(n, f) == [i \in 1 .. n |-> f]
Equal == FlattenSeq([i \in B |-> <<R(Same(3, Basic[i])), R(<<Nth(Basic, i + 9)>> \o Same(4, Basic[i]) \o <<Nth(Basic, i + 90)>>)>>])
         \o [i \in DOMAIN Types |-> R(Same(3 + (i % 2), M(IF i % 3 = 0 THEN "gadget" ELSE "none", Types[i])))]
         \o [n \in 1 .. 6 |-> LET f == Nth(Choice, 11 * n)
                                   g == Nth(Choice, 11 * n + 5)
                               IN R(<<f, g, f, g>> \o Same(n, f) \o <<g>>)]
(* Structs of many fields.                                                                         *)
Wide == [i \in DOMAIN Sizes |-> R([j \in 1 .. Sizes[i] |-> Nth(Basic, 40 * i + j)])]
(* Structs within structs, to some depth, and trees of every kind of node.                         *)
RECURSIVE Tower(_, _)
Tower(n, seed) == IF n = 0 THEN Nth(<<Elem, Bit, Probe>>, seed)
                  ELSE R(IF n % 2 = 0 THEN <<Nth(Basic, seed), M("none", Tower(n - 1, seed + 1))>>
                                      ELSE <<M("gadget", Tower(n - 1, seed + 1)), Nth(Basic, seed)>>)
RECURSIVE Tree(_, _)
Tree(d, s) ==
  LET sub(k) == Tree(d - 1, 4 * s + k)
      fld(k) == LET f == Nth(Basic, 3 * s + k) IN IF k = 1 \/ Rnd(s + k, 3) = 0 THEN Fld(IF k % 2 = 0 THEN "none" ELSE "gadget", Rnd(s, 5) = k, sub(k)) ELSE f
      pick == Rnd(s, 9)
  IN IF d = 0 THEN Nth(<<Elem, Bit, Probe, Pair(Unit, Bit), Probe>>, s)
     ELSE CASE pick = 0 -> Arr(1 + Rnd(s + 1, 3), sub(1))
            [] pick \in {1, 2} -> Vec(1 + Rnd(s + 1, 3), sub(1))
            [] pick = 3 -> Pair(sub(1), sub(2))
            [] pick = 4 -> Boxed(sub(1))
            [] pick = 5 -> Dem(sub(1))
            [] OTHER -> R([k \in 1 .. 2 + Rnd(s + 2, 3) |-> fld(k)])
Nestings == [n \in 1 .. 5 |-> Tower(n + 1, 17 * n)] \o [n \in 1 .. Trees |-> R(<<M("gadget", Tree(3, n)), Nth(Basic, n)>>)]
Shapes == <<Empty>> \o Singles \o Pairs \o TripleShapes \o Nested \o LongShapes \o Param \o Sized \o Kinded \o NestedParam \o Large \o Equal \o Wide \o Nestings
ASSUME ndJsonSerialize(IOEnv.OUT, [i \in DOMAIN Shapes |-> [id |-> i, shape |-> Shapes[i], write |-> Writable(Shapes[i]),
                                                            check |-> Checkable(Shapes[i]), wires |-> NumWires(Shapes[i])]])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
