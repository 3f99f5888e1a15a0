------------------------------- MODULE Shapes -------------------------------
(* Composite gadgets: what a definition says about every derived operation.                        *)
(*                                                                                                 *)
(* A shape is a tree. Leaves are the gadgets that own wires; inner nodes are tuples, arrays,       *)
(* boxes, fixed-length vectors, demoted gadgets and structs. A struct lists its fields in          *)
(* declaration order, each with the way it is marked (`as`) and whether serialisation skips it.    *)
EXTENDS Integers, Sequences, SequencesExt

Leaf == {"elem", "bool", "probe"}
Elem == [k |-> "elem"]
Bit == [k |-> "bool"]
Probe == [k |-> "probe"]
Unit == [k |-> "unit"]
Arr(n, t) == [k |-> "arr", n |-> n, of |-> t]
Vec(n, t) == [k |-> "vec", n |-> n, of |-> t]
Pair(l, r) == [k |-> "pair", l |-> l, r |-> r]
Boxed(t) == [k |-> "box", of |-> t]
Dem(t) == [k |-> "dem", of |-> t]
Rec(h, fs) == [k |-> "rec", hdr |-> h, fs |-> fs]
Fld(a, s, t) == [as |-> a, skip |-> s, ty |-> t]
IsGadget(f) == f.as \in {"gadget", "none"}

(* The parts of a node, in declaration order.                                                      *)
Parts(t) ==
  CASE t.k \in {"arr", "vec"} -> [i \in 1 .. t.n |-> t.of]
    [] t.k = "pair" -> <<t.l, t.r>>
    [] t.k \in {"box", "dem"} -> <<t.of>>
    [] OTHER -> <<>>

(* Which derived operations exist for a shape.                                                     *)
RECURSIVE Writable(_)
Writable(t) ==
  CASE t.k = "rec" -> \A i \in DOMAIN t.fs : LET f == t.fs[i] IN
         f.skip \/ f.as = "phantom" \/ (IsGadget(f) /\ Writable(f.ty))
    [] t.k = "dem" -> FALSE
    [] OTHER -> \A i \in DOMAIN Parts(t) : Writable(Parts(t)[i])
RECURSIVE Checkable(_)
Checkable(t) ==
  CASE t.k = "rec" -> /\ t.hdr # "kind"
                      /\ \A i \in DOMAIN t.fs : IsGadget(t.fs[i]) => Checkable(t.fs[i].ty)
    [] t.k = "dem" -> FALSE
    [] OTHER -> \A i \in DOMAIN Parts(t) : Checkable(Parts(t)[i])

(* What a shape holds, in declaration order: wires ("w") and witness values (field elements and    *)
(* plain values "v", bits "b", values taken away by demotion "g"). `wr`: serialisation reaches it; *)
(* `con`: consistency enforcement constrains it.                                                   *)
Wire(wr, con) == [k |-> "w", wr |-> wr, con |-> con]
Value(k) == [k |-> k, wr |-> FALSE, con |-> FALSE]
RECURSIVE Items(_)
Items(t) ==
  LET Field(f) ==
        CASE f.as = "wire" -> <<Wire(FALSE, FALSE)>>
          [] f.as = "value" -> <<Value("v")>>
          [] f.as = "phantom" -> <<>>
          [] OTHER -> LET s == Items(f.ty) IN [i \in DOMAIN s |-> [s[i] EXCEPT !.wr = @ /\ ~f.skip]]
  IN CASE t.k = "elem" -> <<Wire(TRUE, FALSE), Value("v")>>
       [] t.k = "bool" -> <<Wire(TRUE, TRUE), Value("b")>>
       [] t.k = "probe" -> <<Wire(TRUE, TRUE), Value("v")>>
       [] t.k = "dem" -> LET s == Items(t.of) IN
            [i \in DOMAIN s |-> IF s[i].k = "w" THEN Wire(FALSE, FALSE) ELSE Value("g")]
       [] t.k = "rec" -> FlattenSeq([i \in DOMAIN t.fs |-> Field(t.fs[i])])
       [] OTHER -> FlattenSeq([i \in DOMAIN Parts(t) |-> Items(Parts(t)[i])])

(* Wires are numbered 1, 2, ... and so are values, in declaration order.                           *)
CountUpTo(s, i, P(_)) == Len(SelectSeq(SubSeq(s, 1, i), P))
IsWire(x) == x.k = "w"
IsValue(x) == x.k # "w"
NumWires(t) == Len(SelectSeq(Items(t), IsWire))
WireIds(t, P(_)) ==
  LET s == Items(t)
      at == SelectSeq([i \in DOMAIN s |-> i], LAMBDA i : s[i].k = "w" /\ P(s[i]))
  IN [j \in DOMAIN at |-> CountUpTo(s, at[j], IsWire)]
AllWires(t) == WireIds(t, LAMBDA x : TRUE)
Written(t) == WireIds(t, LAMBDA x : x.wr)
Checked(t) == WireIds(t, LAMBDA x : x.con)

(* What one sees by reading every field of an instance: f(n) for wire n, and each value - or, if   *)
(* `here` is false, that there is none.                                                            *)
Sight(t, f(_), here) ==
  LET s == Items(t)
  IN [i \in DOMAIN s |->
        IF s[i].k = "w" THEN f(CountUpTo(s, i, IsWire))
        ELSE LET n == CountUpTo(s, i, IsValue) IN
             IF ~here \/ s[i].k = "g" THEN 0
             ELSE IF s[i].k = "v" THEN 1000 + n ELSE 2000 + (n % 2)]

(* Whether the kind of a shape can be named with the kind macro, which replaces `_` in paths and   *)
(* tuples but not in arrays.                                                                       *)
RECURSIVE Nameable(_)
Nameable(t) == t.k # "arr" /\ (t.k = "rec" \/ \A i \in DOMAIN Parts(t) : Nameable(Parts(t)[i]))
=============================================================================
