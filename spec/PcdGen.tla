------------------------------- MODULE PcdGen --------------------------------
(* Histories to run on the code: derivation trees in order, every item verified as it is made, the  *)
(* last one under every wrong claim too.                                                            *)
EXTENDS Pcd, IOUtils, Json, Randomization, SequencesExt
CONSTANTS Shallow,  \* trees of each kind, one level above seeds
          Deep,     \* and two levels, of each step, honest and dishonest
          Tall,     \* and three
          Again2,   \* items rerandomized later on
          Full
Tree(s, w, l, r) == [s |-> s, w |-> w, l |-> l, r |-> r]
Leaf(w) == Tree("leaf", w, <<>>, <<>>)
Nil == Tree("nil", 0, <<>>, <<>>)
Seeds == {Leaf(w) : w \in {0, 1, 2, 4, 9}} \cup {Nil}
Ws(s) == IF s \in {"leaf", "mix"} THEN {0, 2, 3} ELSE IF s = "root" THEN {1, 2, 3} ELSE {0}
Of(S, ty) == {t \in S : Eval(t).ty = ty}
\* By each step, from what there is.
By(s, S) == {Tree(s, p[1], <<p[2]>>, <<p[3]>>) : p \in Ws(s) \X Of(S, TypeOf[s].l) \X Of(S, TypeOf[s].r)}
Again_(S) == {Tree("rr", 0, <<t>>, <<>>) : t \in S}
Pick(k, S) == IF k >= Cardinality(S) THEN S ELSE RandomSubset(k, S)
Is(S, ok) == {t \in S : Eval(t).ok = ok}
Kinds(k, S) == UNION {Pick(k, Is(By(s, S), o)) : s \in StepNames, o \in {"yes", "no", "laundered"}}
               \cup Pick(k, Again_(S))
One == Pick(Shallow, Again_(Seeds)) \cup UNION {Pick(Shallow, Is(By(s, Seeds), o)) : s \in StepNames, o \in {"yes", "no"}}
\* A few of everything to build upon.
Few == TLCEval(Seeds \cup Kinds(2, Seeds))
Two == TLCEval(Kinds(Deep, Few) \cup Pick(Deep, Again_({t \in Few : Eval(t).ok = "no"})))
Three == Pick(Tall, Kinds(2, TLCEval(Seeds \cup Pick(12, Two))))
\* What is known to go wrong, for certain.
Launder == Tree("rr", 0, <<Tree("drop", 0, <<Tree("root", 3, <<Nil>>, <<Leaf(4)>>)>>, <<Nil>>)>>, <<>>)
Trees == TLCEval(One \cup Two \cup Three \cup {Launder})

RECURSIVE Order(_, _)
Order(t, acc) == IF \E i \in DOMAIN acc : acc[i] = t THEN acc
                 ELSE LET a == IF t.l = <<>> THEN acc ELSE Order(t.l[1], acc)
                          b == IF t.r = <<>> THEN a ELSE Order(t.r[1], a)
                      IN  Append(b, t)
At(t, o) == (CHOOSE i \in DOMAIN o : o[i] = t) - 1
Zeros(n) == [i \in 1 .. n |-> 0]
Check(o, t, add, ty, in) == [o |-> "verify", i |-> At(t, o), add |-> add, ty |-> ty, in |-> in]
Right(o, t) == Check(o, t, Zeros(Len(Eval(t).data)), Eval(t).ty, "same")
MakeOp(o, t) == CASE t.s = "rr" -> [o |-> "rr", i |-> At(t.l[1], o)]
                  [] t.l = <<>> -> [o |-> "seed", s |-> t.s, w |-> t.w]
                  [] OTHER -> [o |-> "fuse", s |-> t.s, w |-> t.w, i |-> At(t.l[1], o), j |-> At(t.r[1], o)]
Wrong(o, t) == LET e == Eval(t) n == Len(e.data) z == Zeros(n) IN
               SetToSeq({Check(o, t, [z EXCEPT ![k] = d], e.ty, "same") : k \in 1 .. n, d \in {1, 5}})
               \o SetToSeq({Check(o, t, z, ty, "same") : ty \in (Types \cup {"alt"}) \ {e.ty}})
               \o SetToSeq({Check(o, t, z, e.ty, in) : in \in {"more", "fewer", "free", "longer"}})
\* The size of headers and the number of steps besides make no difference. With Full others the
\* circuits fill up the smallest domain that has room for them.
\* Later on in the same application: some items rerandomized, one that is in order among them.
Late(o) == LET yes == {i \in DOMAIN o : Eval(o[i]).ok = "yes" /\ Eval(o[i]).ty # "unit"}
               is == SetToSeq(Pick(1, yes)) \o SetToSeq(Pick(Again2, {i \in DOMAIN o : Eval(o[i]).ok # "laundered"}))
               ts == [k \in DOMAIN is |-> Tree("rr", 0, <<o[is[k]]>>, <<>>)]
           IN  FlattenSeq([k \in DOMAIN is |-> LET e == Eval(ts[k]) IN
                 <<[o |-> "rr", i |-> is[k] - 1],
                   [o |-> "verify", i |-> Len(o) + k - 1, add |-> Zeros(Len(e.data)), ty |-> e.ty, in |-> "same"]>>])
History(t, k) == LET o == Order(t, <<>>) IN
              [size |-> <<4, 9, 4, 3>>[1 + (k % 4)], extra |-> <<0, Full, 1, Full + 1, 3>>[1 + (k % 5)],
               ops |-> FlattenSeq([i \in DOMAIN o |-> <<MakeOp(o, o[i]), Right(o, o[i])>>])
                       \o Late(o) \o Wrong(o, t) \o <<[o |-> "fresh"], Right(o, t)>>]
ASSUME ndJsonSerialize(IOEnv.OUT, LET T == SetToSeq(Trees) o == RandomElement(0 .. 19) IN [i \in DOMAIN T |-> History(T[i], i + TLCEval(o))])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
