------------------------------ MODULE ForgeGen -------------------------------
(* What to forge on the code: values as the prover comes up with them, values *)
(* after the fact, and strays on gates that are not a polynomial's own.       *)
EXTENDS Forge, IOUtils, Json, Randomization
CONSTANTS Forgings, \* of values at random, besides one of each sort
          Doubles,  \* forgings of two values
          Alters,   \* after the fact, on each of the other bases; all of them on one
          Pairs,    \* of two values after the fact
          Heirs,    \* inputs that do not hold, besides one of each sort
          Boths,    \* pairs of inputs for each polynomial, with the opposite amiss
          Binds,    \* parts of inputs that are altered
          Movings   \* strays, for each pair of a polynomial and a region
O == RandomElement(0 .. 9999)
Off == TLCEval(O)
A(name, how, k) == [name |-> name, how |-> how, k |-> k]
Sc(mode, base, alter) == [mode |-> mode, base |-> base, alter |-> alter]
Some(S, n) == IF Cardinality(S) <= n THEN SetToSeq(S) ELSE SetToSeq(RandomSubset(n, S))
Polynomials == Made \cap {"application.rx", "ab.a.rx", "ab.b.rx", "f.poly.rx", "p.poly.rx", "s_prime.registry_wx0.rx", "s_prime.registry_wx1.rx",
                          "inner_error.registry_wy.rx", "query.registry_xy.rx"}
HowOf(v, i) == CASE v \in Polynomials -> IF i % 3 = 0 THEN "bare" ELSE "add"
                 [] v \in Headers \cup Committed \cup {C(x) : x \in Challenges} -> "add"
                 [] OTHER -> <<"add", "zero", "one", "minus">>[1 + (i % 4)]
FBases == <<"mix", "flat", "root", "mix", "leaf">>
\* A polynomial is altered where it counts.
K(v, i) == IF v \in Polynomials THEN 1 ELSE i % 9973
BaseFor(names, i) == IF names \cap Polynomials # {} THEN "mix" ELSE FBases[1 + (i % 5)]
F(v, i) == Sc("forge", BaseFor({v}, i), <<A(v, HowOf(v, Off + i), K(v, Off + i))>>)
\* Of each sort of value, some; the sorts of which there are few, all.
Sorts == << {C(x) : x \in Challenges}, Polynomials, Headers, {"ab.c"}, {"p.v"}, Committed, Inner, Outer, Collapsed, Kys, Sponge,
            Output("left"), Output("right"), ChildQueries("left"), ChildQueries("right"), Queries \ (ChildQueries("left") \cup ChildQueries("right")),
            ChildEvals("left"), ChildEvals("right"), Evals \ (ChildEvals("left") \cup ChildEvals("right")), {"application.circuit_id"} >>
Each == LET all == SetToSeq(Sorts[1]) \o SetToSeq(Sorts[2]) \o Some(Committed, 3) \o FlattenSeq([i \in 1 .. Len(Sorts) |-> IF i \in {1, 2, 6} THEN <<>> ELSE Some(Sorts[i], 2)])
        IN [i \in DOMAIN all |-> F(all[i], i)]
More == LET all == Some(Made, Forgings) IN [i \in DOMAIN all |-> F(all[i], i + 1)]
Two == LET a == Some(Made, Doubles) b == Some(Made, Doubles) IN
       [i \in 1 .. Doubles |-> LET x == a[i] y == b[Doubles + 1 - i] IN
          IF x = y THEN F(x, i)
          ELSE Sc("forge", BaseFor({x, y}, i), <<A(x, HowOf(x, Off + i), K(x, i + 1)), A(y, HowOf(y, Off + 2 * i), K(y, 2 * i + 500))>>)]
\* A prover who says that his inputs are of unit type, and claim nothing; one who fits a product; and one who has it easy.
Special == <<Sc("forge", "mix", <<>>), Sc("forge", "leaf", <<>>), Sc("forge", "root", <<>>), Sc("forge", "flat", <<>>),
             Sc("forge", "mix", <<A(Suffix("left"), "one", 0), A(Suffix("right"), "one", 0)>>),
             Sc("forge", "root", <<A(Suffix("right"), "one", 0)>>),
             Sc("forge", "flat", <<A(Suffix("left"), "one", 0), A(Suffix("right"), "one", 0), A("ab.c", "add", 1)>>),
             Sc("forge", "mix", <<A(Header("left"), "add", HeaderSize - 1), A(Header("right"), "add", HeaderSize - 1)>>),
             Sc("forge", "leaf", <<A(Header("left"), "add", HeaderSize - 1)>>),
             Sc("forge", "mix", <<A("ab.c", "fit", 0)>>), Sc("forge", "mix", <<A("ab.a.rx", "add", 1), A("ab.c", "fit", 0)>>),
             Sc("forge", "leaf", <<A("ab.b.rx", "full", 1), A("ab.c", "fit", 0)>>),
             Sc("forge", "leaf", <<A("outer_error.error.3", "add", 1), A("inner_error.error.2.5", "add", 1)>>),
             Sc("forge", "root", <<A("outer_error.error.3", "add", 1)>>), Sc("forge", "root", <<A("inner_error.error.1.3", "add", 1)>>),
             Sc("forge", "mix", <<A("application.circuit_id", "outside", Off)>>),
             Sc("forge", "mix", <<A("p.poly.rx", "vanish", 1)>>), Sc("forge", "leaf", <<A("p.poly.rx", "vanish", 2), A("outer_error.error.3", "add", 1)>>)>>
\* After the fact.
T(base, v, i) == Sc("relation", base, <<A(v, IF v \in Headers \cup UNION {Child(s, Headers) : s \in Sides} \/ v \in Instance THEN "add"
                                             ELSE <<"add", "zero", "one", "minus">>[1 + ((Off + i) % 4)], (Off + i) % 9973)>>)
All == LET s == SetToSeq(Tamperable) IN [i \in DOMAIN s |-> T("mix", s[i], i)]
Rest == FlattenSeq([b \in 1 .. 3 |-> LET s == Some(Tamperable, Alters) IN [i \in DOMAIN s |-> T(<<"leaf", "root", "flat">>[b], s[i], i + b)]])
\* Not the many errors only.
Few == Tamperable \ (Inner \cup Outer)
Others == FlattenSeq([b \in 1 .. 3 |-> LET s == Some(Few, Alters) IN [i \in DOMAIN s |-> T(<<"leaf", "root", "flat">>[b], s[i], i + b)]])
Ids == {Of(s, "application.circuit_id") : s \in Sides} \cup {"application.circuit_id"}
Outsiders == LET s == SetToSeq(Ids) IN [i \in DOMAIN s |-> Sc("relation", "mix", <<A(s[i], "outside", Off + i)>>)]
Coupled == LET a == Some(Few, Pairs) b == Some(Tamperable, Pairs) n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b) IN
           [i \in 1 .. n |-> LET y == b[1 + ((i + Off) % n)] x == a[i] base == <<"mix", "leaf", "root", "flat">>[1 + (i % 4)] IN
              IF x = y THEN T(base, x, i) ELSE Sc("relation", base, <<A(x, "add", 2 * i), A(y, "add", 2 * i + 5001)>>)]
Points == {Bc(x) : x \in Bridged}
\* The opposite of a point, which shares a coordinate with it.
Opposite == LET s == SetToSeq((Points \cup UNION {Child(s, Points) : s \in Sides}) \cap Tamperable) IN
            [i \in DOMAIN s |-> Sc("relation", <<"mix", "root", "flat">>[1 + (i % 3)], <<A(s[i], "minus", 0)>>)]
            \o LET t == SetToSeq(Points \cap Made) IN [i \in DOMAIN t |-> Sc("forge", FBases[1 + (i % 5)], <<A(t[i], "minus", 0)>>)]
\* Values of two inputs, or any two of a kind, exchanged; or moved apart by the same.
Scalars == Few \ (UNION {Child(s, Points \cup Headers \cup {"application.circuit_id"}) \cup {Suffix(s)} : s \in Sides}
                  \cup Points \cup Headers \cup {"application.circuit_id"})
Mirrors == {<<Of("left", x), Of("right", x)>> : x \in Instance}
           \cup {<<"outer_error.left." \o k, "outer_error.right." \o k>> : k \in {"application", "unified", "unified_bridge"}}
           \cup {<<"query.left." \o x, "query.right." \o x>> : x \in {"a_poly", "b_poly", "child_registry_xy", "registry_circuit_id", "registry_wy"} \cup {"rx." \o r : r \in Rx}}
           \cup {<<"eval.left." \o x, "eval.right." \o x>> : x \in {"a_poly", "b_poly", "registry_xy", "p_poly"} \cup {"rx." \o r : r \in Rx}}
           \cup {<<"eval.registry_wx0", "eval.registry_wx1">>, <<"eval.a_poly", "eval.b_poly">>}
           \cup {<<"preamble.left.output_header." \o Num(i), "preamble.right.output_header." \o Num(i)>> : i \in 0 .. HeaderSize - 2}
AnyTwo(S, n) == LET a == Some(S, n) b == Some(S, n) m == Len(a) IN
                {<<a[i], b[1 + ((i + Off) % m)]>> : i \in {i \in 1 .. m : a[i] # b[1 + ((i + Off) % m)]}}
Next2(S, n) == LET a == SetToSeq(S) m == Len(a) IN {<<a[1 + ((i * 7919 + Off) % m)], a[1 + ((i * 7919 + Off + 1) % m)]>> : i \in 1 .. n}
Twins == SetToSeq(Mirrors \cup AnyTwo(Scalars, Pairs) \cup AnyTwo(Points \cup UNION {Child(s, Points) : s \in Sides}, 24)
                  \cup Next2(Inner, 60) \cup Next2(Outer, 20) \cup Next2(Collapsed, 5) \cup Next2(Sponge, 5))
Swapped == [i \in DOMAIN Twins |-> Sc("relation", <<"mix", "flat", "root">>[1 + (i % 3)],
                                      <<A(Twins[i][1], "swap", 0), A(Twins[i][2], "swap", 0)>>)]
Apart == [i \in DOMAIN Twins |-> Sc("relation", <<"root", "mix", "flat">>[1 + (i % 3)],
                                    <<A(Twins[i][1], "add", Off + i), A(Twins[i][2], "sub", Off + i)>>)]
Weighed == <<Sc("weigh", "root", <<>>)>>
\* Strays.
PolySeq == SetToSeq(Polys)
Moved == LET n == Len(PolySeq) IN
         [j \in 1 .. n * n * Movings |->
            LET i == j - 1 p == PolySeq[1 + (i % n)] region == PolySeq[1 + ((i \div n) % n)] q == PolySeq[1 + ((i + Off + i \div n) % n)] IN
            [mode |-> "move", base |-> <<"mix", "leaf">>[1 + (i % 2)], from |-> p, to |-> IF q = p \/ i % 4 = 0 THEN "" ELSE q,
             at |-> region, wire |-> (Off + i) % 4, k |-> (Off * 31 + i * 7919) % 100003, alter |-> <<>>]]
\* Whose gates are not p's, so that its mask is sure to see.
StrangerTo(p, i) == LET qs == SetToSeq({q \in Polys : q # p /\ q \in Stages}) IN qs[1 + (i % Len(qs))]
\* Inputs that do not hold: each for one reason that one claim alone sees, or one mask; any others; and one that does hold.
Reasons == <<A("left.challenges.w", "add", Off), A(Bc("query"), "add", Off), A("outer_error.error.0", "add", Off), A("query.fixed_registry.EvalStage", "add", Off),
             A("ab.c", "add", Off), A("application.rx", "add", 1), A("p.v", "add", Off), A("inner_error.error.1.2", "add", Off)>>
Step(side, i) == [side |-> side, other |-> <<"flat", "root", "leaf">>[1 + (i % 3)]]
H(base, side, alter, i) == Sc("heir", base, alter) @@ Step(side, i)
BaseOf(a) == IF a.name = "ab.c" THEN "leaf" ELSE "mix"
Side(i) == IF i % 2 = 0 THEN "left" ELSE "right"
ByReason == FlattenSeq([i \in DOMAIN Reasons |-> <<H(BaseOf(Reasons[i]), "left", <<Reasons[i]>>, i), H(BaseOf(Reasons[i]), "right", <<Reasons[i]>>, i + 1)>>])
ByStray == LET n == Len(PolySeq) IN
           [j \in 1 .. 2 * n |-> LET p == PolySeq[1 + (j % n)] q == PolySeq[1 + ((j + 1 + (Off % (n - 1))) % n)] IN
              H("mix", Side(j \div n), <<>>, j) @@ [from |-> p, to |-> "", at |-> q, wire |-> (Off + j) % 4, k |-> (Off * 31 + j * 7919) % 100003]]
ByChance == LET s == Some(Few \ (Ids \cup {Header("left"), Header("right")}), Heirs) IN
            [i \in DOMAIN s |-> LET t == T(<<"mix", "root", "flat">>[1 + (i % 3)], s[i], i) IN H(t.base, Side(i), t.alter, i)]
\* Two inputs, with the opposite amiss: of each mask one stray at least, and a claim that one value decides.
ByBoth == LET n == Len(PolySeq) IN
          [j \in 1 .. Boths * n + 2 |->
             IF j > Boths * n
             THEN [mode |-> "heir", base |-> <<"leaf", "mix">>[j - Boths * n], other |-> <<"leaf", "mix">>[j - Boths * n], side |-> Side(j), both |-> TRUE,
                   alter |-> <<A(<<"ab.c", "outer_error.error.0">>[j - Boths * n], "add", Off)>>]
             ELSE LET p == PolySeq[1 + (j % n)] q == StrangerTo(p, Off + j) IN
                  [mode |-> "heir", base |-> <<"mix", "flat">>[1 + (j % 2)], other |-> <<"flat", "root", "mix">>[1 + (j % 3)], side |-> Side(j), both |-> TRUE, alter |-> <<>>,
                   from |-> p, to |-> "", at |-> q, wire |-> <<1, 3>>[1 + (j % 2)], k |-> (Off * 31 + j * 7919) % 100003]]
Inherited == <<H("mix", "left", <<>>, Off), H("leaf", "right", <<>>, Off)>> \o ByReason \o ByStray \o ByChance \o ByBoth
\* What inputs are bound by: the parts of one, of one side or the other; more of them of both.
Ends(n) == \E s \in Sides : \E x \in Native \cup Once : n = Of(s, RxOf(x))
Binding == LET all == SetToSeq(UNION {Child(s, Parts \ Nested_) : s \in Sides}) IN
           [i \in DOMAIN all |-> Sc("bind", <<"mix", "flat", "root">>[1 + ((Off + i) % 3)], <<A(all[i], IF Ends(all[i]) THEN "full" ELSE "add", Off)>>)]
Rest_ == LET all == Some(UNION {Child(s, Nested_) : s \in Sides}, 10) IN
         [i \in DOMAIN all |-> Sc("bind", "mix", <<A(all[i], "add", 1)>>)]
Holding_ == [i \in 1 .. 4 |-> Sc("holds", <<"mix", "flat", "root", "leaf">>[i], <<>>)]
Bound == LET n == Len(Binding) m == IF Binds < n THEN Binds ELSE n IN [i \in 1 .. m |-> Binding[1 + ((Off + i * 61) % n)]] \o Rest_
ASSUME ndJsonSerialize(IOEnv.OUT, Holding_ \o Bound \o Weighed \o Inherited \o Special \o Each \o More \o Two \o Outsiders \o Opposite \o All \o Rest \o Others \o Coupled \o Swapped \o Apart \o Moved)
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
