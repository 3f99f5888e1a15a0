------------------------------ MODULE GadgetGen -----------------------------
(* Programs over the primitive gadgets: every gadget on every form its arguments can take (an         *)
(* allocated wire, a constant, the one wire, a linear combination, the same wire twice).               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, IOUtils, Json, TLC
CONSTANTS MaxFold, MaxPack

I(o, a) == [o |-> o, a |-> a, k |-> 0]
IK(o, a, k) == [o |-> o, a |-> a, k |-> k]
All == {"13", "79", "97"}
Small == {"13"}
Deep == {"13", "79t", "97t"}
Prog(f, p) == [prog |-> p, fields |-> f]

\* An element in one of its forms; the result is the last register the sequence makes. `n` is the number
\* of registers that exist already.
Forms == {"alloc", "free", "const", "one", "zero", "lin", "bit"}
Mk(form, n) ==
  CASE form = "alloc" -> <<I("alloc", <<>>)>>
    [] form = "free" -> <<I("free", <<>>)>>
    [] form = "const" -> <<IK("const", <<>>, "elem")>>
    [] form = "one" -> <<I("one", <<>>)>>
    [] form = "zero" -> <<I("zero", <<>>)>>
    [] form = "lin" -> <<I("alloc", <<>>), I("one", <<>>), IK("add_coeff", <<n, n + 1>>, <<"c", 5>>)>>
    [] form = "bit" -> <<I("balloc", <<>>), I("belement", <<n>>)>>

Coeffs == {<<"0", 0>>, <<"1", 0>>, <<"2", 0>>, <<"-1", 0>>, <<"c", 3>>, <<"-c", 3>>, <<"c", 0>>, <<"-c", 0>>}

Unary == {"square", "ez", "neg", "double", "invert", "is_zero", "consistent"}
Binary == {"mul", "add", "sub", "div", "is_equal", "equal"}
Un == {Prog(All, Mk(fo, 0) \o <<I(o, <<Len(Mk(fo, 0)) - 1>>)>>) : o \in Unary, fo \in Forms}
      \cup {Prog(All, Mk(fo, 0) \o <<IK("scale", <<Len(Mk(fo, 0)) - 1>>, k)>>) : k \in Coeffs, fo \in Forms}
      \cup {Prog(All, Mk(fo, 0) \o <<IK("root", <<Len(Mk(fo, 0)) - 1>>, k)>>) : k \in 0 .. 6, fo \in Forms}
      \cup {Prog(All, Mk(fo, 0) \o <<I("invert_with", <<Len(Mk(fo, 0)) - 1>>)>>) : fo \in Forms}
Two(f1, f2) == LET a == Mk(f1, 0) IN a \o Mk(f2, Len(a))
Bi == UNION {LET a == Mk(f1, 0) b == Two(f1, f2)
             IN {Prog(Small, b \o <<I(o, <<Len(a) - 1, Len(b) - 1>>)>>) : o \in Binary}
             : f1 \in Forms, f2 \in Forms}
      \cup {Prog(Deep, <<I("alloc", <<>>), I("alloc", <<>>), I(o, <<0, 1>>)>>) : o \in Binary}
      \cup {Prog(All, <<I("alloc", <<>>), I(o, <<0, 0>>)>>) : o \in Binary}
      \cup {Prog(Small, <<I("alloc", <<>>), I("alloc", <<>>), IK("add_coeff", <<0, 1>>, k)>>) : k \in Coeffs}
Sq == {Prog(All, <<I("alloc_square", <<>>)>>), Prog(All, <<I("alloc_square", <<>>), I("mul", <<0, 1>>)>>)}
Rep(x, n) == [i \in 1 .. n |-> x]
Ids(lo, n) == [i \in 1 .. n |-> lo + i - 1]
Folds == {Prog(Small, Rep(I("alloc", <<>>), n + 1) \o <<I("fold", <<0>> \o Ids(1, n))>>) : n \in 0 .. MaxFold}
         \cup {Prog(Small, Rep(I("alloc", <<>>), n) \o <<I("sum", Ids(0, n))>>) : n \in 0 .. MaxFold}
         \cup {Prog(Small, Rep(I("alloc", <<>>), n) \o <<IK("multiadd", Ids(0, n), [i \in 1 .. n |-> (i * 5) % 7])>>) : n \in 0 .. MaxFold}
         \cup {Prog(Small, <<I("alloc", <<>>), I("alloc", <<>>), I("fold", <<0, 1, 1, 0>>)>>)}
Bools == {Prog(All, <<I(b, <<>>), I(o, <<0>>)>>) : b \in {"balloc"}, o \in {"not", "belement", "bdemote", "consistent"}}
         \cup {Prog(All, <<I("bfree", <<>>), I("consistent", <<0>>)>>)}
         \cup {Prog(All, <<I("balloc", <<>>), I("balloc", <<>>), I(o, <<0, 1>>)>>) : o \in {"and", "equal"}}
         \cup {Prog(All, <<I("balloc", <<>>), I("not", <<0>>), I("and", <<0, 1>>), I("and", <<1, 1>>), I("not", <<2>>)>>)}
         \cup {Prog(All, Rep(I("balloc", <<>>), n) \o <<I("multipack", Ids(0, n))>>) : n \in 0 .. MaxPack}
         \cup {Prog(Small, <<I("balloc", <<>>), I("alloc", <<>>), I("alloc", <<>>), I(o, <<0, 1, 2>>)>>) : o \in {"select", "cond_eq"}}
         \cup {Prog(All, <<I("balloc", <<>>), I("alloc", <<>>), I(o, <<0, 1, 1>>)>>) : o \in {"select", "cond_eq"}}
         \cup {Prog(All, <<I("balloc", <<>>), I("alloc", <<>>), I("one", <<>>), I(o, <<0, 2, 1>>)>>) : o \in {"select", "cond_eq"}}
         \cup {Prog(All, <<I("alloc", <<>>), I("is_zero", <<0>>), I("not", <<1>>), I("select", <<2, 0, 0>>)>>)}
PointK == <<IK("pconst", <<>>, "point")>>
Pts == {Prog(All, <<I("palloc", <<>>), I(o, <<0>>)>>) : o \in {"endo", "pneg", "pdouble", "consistent"}}
       \cup {Prog(All, <<I("pfree", <<>>), I("consistent", <<0>>)>>)}
       \cup {Prog(All, PointK \o <<I(o, <<0>>)>>) : o \in {"endo", "pneg", "pdouble", "consistent"}}
       \cup {Prog(All, <<I("palloc", <<>>), I("balloc", <<>>), I(o, <<0, 1>>)>>) : o \in {"cendo", "cneg"}}
       \cup {Prog(f, q \o <<I("palloc", <<>>), I(o, <<0, 1>>)>>) : o \in {"padd", "pdbladd", "equal"}, f \in {Deep}, q \in {<<I("palloc", <<>>)>>}}
       \cup {Prog(All, PointK \o <<I("palloc", <<>>), I(o, <<0, 1>>)>>) : o \in {"padd", "pdbladd", "equal"}}
       \cup {Prog(All, <<I("palloc", <<>>)>> \o PointK \o <<I(o, <<0, 1>>)>>) : o \in {"padd", "pdbladd"}}
       \cup {Prog(All, <<I("palloc", <<>>), I(o, <<0, 0>>)>>) : o \in {"padd", "pdbladd"}}
       \cup {Prog(All, <<I("palloc", <<>>), I("endo", <<0>>), I(o, <<1, 0>>)>>) : o \in {"padd", "pdbladd"}}
       \cup {Prog(All, <<I("palloc", <<>>), I("pneg", <<0>>), I(o, <<0, 1>>)>>) : o \in {"padd", "pdbladd"}}
       \cup {Prog(All, <<I("palloc", <<>>), I("pdouble", <<0>>), I(o, <<0, 1>>)>>) : o \in {"padd", "pdbladd"}}
       \cup {Prog(Small, <<I("palloc", <<>>), I("palloc", <<>>), I("one", <<>>), I("padd_nz", <<0, 1, 2>>), I("invert", <<4>>)>>)}
       \cup {Prog(All, PointK \o <<I("palloc", <<>>), I("one", <<>>), I("padd_nz", <<0, 1, 2>>), I("padd_nz", <<3, 1, 4>>), I("invert", <<6>>)>>)}
Endos == {Prog(Deep, <<I("alloc", <<>>), I("extract", <<0>>)>>),
          Prog(All, <<IK("const", <<>>, "elem"), I("extract", <<0>>)>>),
          Prog(All, <<IK("salloc", <<>>, "bits"), I("lift", <<0>>)>>)}
Scenarios == Un \cup Bi \cup Sq \cup Folds \cup Bools \cup Pts \cup Endos
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Scenarios)) /\ PrintT(<<"scenarios", Cardinality(Scenarios)>>)
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
