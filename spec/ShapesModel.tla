---------------------------- MODULE ShapesModel -----------------------------
(* Derived operations as they execute: a traversal with an explicit stack, one part at a time,     *)
(* which may be stopped by an error at any wire. Wires are named by their path in the definition,  *)
(* so "every declared field once, in declaration order" is a statement about paths, independent of *)
(* the traversal and of the numbering used elsewhere.                                              *)
EXTENDS Shapes, TLC, FiniteSets
CONSTANTS MaxFields, Deep
Ops == {"map", "eq", "write", "con"}

Base == {Elem, Bit, Unit}
Small == Base \cup {Pair(Elem, Bit), Arr(2, Elem), Vec(2, Bit), Boxed(Elem), Dem(Elem), Arr(0, Elem),
                    Arr(2, Pair(Elem, Unit)), Dem(Pair(Bit, Elem))}
Fields(T) == {Fld("wire", TRUE, Unit), Fld("wire", FALSE, Unit), Fld("value", TRUE, Unit), Fld("phantom", FALSE, Unit)}
             \cup {Fld(a, s, t) : a \in {"gadget", "none"}, s \in BOOLEAN, t \in T}
Structs(T, n) == UNION {{Rec("std", f) : f \in [1 .. m -> Fields(T)]} : m \in 0 .. n}
Inner == {Rec("std", <<Fld("gadget", FALSE, Elem), Fld("gadget", TRUE, Bit)>>),
          Rec("std", <<Fld("wire", TRUE, Unit), Fld("none", FALSE, Bit), Fld("value", TRUE, Unit)>>)}
Shapes1 == Small \cup Structs(Small, MaxFields)
Shapes2 == IF Deep THEN Structs(Inner \cup {Dem(CHOOSE t \in Inner : TRUE)}, 2) ELSE Inner
All == Shapes1 \cup Shapes2

(* Whether operation `o` exists for the shape.                                                     *)
Has(o, t) == CASE o = "write" -> Writable(t) [] o = "con" -> Checkable(t) [] OTHER -> TRUE

(* The parts of a node that operation `o` visits, with their place among the declared ones.        *)
Visits(o, t) ==
  IF t.k # "rec" THEN [i \in DOMAIN Parts(t) |-> [at |-> i, ty |-> Parts(t)[i]]]
  ELSE LET Keep(i) == LET f == t.fs[i] IN
             CASE o = "write" -> IsGadget(f) /\ ~f.skip
               [] o = "con" -> IsGadget(f)
               [] OTHER -> IsGadget(f) \/ f.as = "wire"
           at == SelectSeq([i \in DOMAIN t.fs |-> i], Keep)
       IN [j \in DOMAIN at |-> [at |-> at[j],
             ty |-> IF t.fs[at[j]].as = "wire" THEN [k |-> "wire"] ELSE t.fs[at[j]].ty]]
IsOwner(o, t) == t.k \in {"wire", "elem", "bool", "probe"}
Touches(o, t) == o # "con" \/ t.k \in {"bool", "probe"}

VARIABLES op, shape, stack, log, stopAt, state
vars == <<op, shape, stack, log, stopAt, state>>
Init ==
  /\ op \in Ops /\ shape \in {t \in All : Has(op, t)}
  /\ stack = <<[path |-> <<>>, ty |-> shape]>> /\ log = <<>> /\ state = "run"
  /\ stopAt \in 0 .. 3
Step ==
  /\ state = "run" /\ stack # <<>>
  /\ LET top == Head(stack) IN
     IF IsOwner(op, top.ty)
     THEN /\ log' = (IF Touches(op, top.ty) THEN Append(log, top.path) ELSE log)
          /\ state' = (IF stopAt # 0 /\ Len(log') = stopAt THEN "error" ELSE "run")
          /\ stack' = Tail(stack)
     ELSE /\ stack' = [j \in DOMAIN Visits(op, top.ty) |->
                          [path |-> Append(top.path, Visits(op, top.ty)[j].at), ty |-> Visits(op, top.ty)[j].ty]] \o Tail(stack)
          /\ UNCHANGED <<log, state>>
  /\ UNCHANGED <<op, shape, stopAt>>
Finish == state = "run" /\ stack = <<>> /\ state' = "done" /\ UNCHANGED <<op, shape, stack, log, stopAt>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars

(* The wires a definition declares, as a set of paths, read off the tree.                          *)
RECURSIVE Declared(_, _, _)
Declared(o, t, p) ==
  CASE t.k \in Leaf -> IF Touches(o, t) THEN {p} ELSE {}
    [] t.k = "rec" -> UNION {LET f == t.fs[i] IN
          CASE f.as = "wire" -> IF o \in {"map", "eq"} THEN {Append(p, i)} ELSE {}
            [] IsGadget(f) -> IF o = "write" /\ f.skip THEN {} ELSE Declared(o, f.ty, Append(p, i))
            [] OTHER -> {} : i \in DOMAIN t.fs}
    [] OTHER -> UNION {Declared(o, Parts(t)[i], Append(p, i)) : i \in DOMAIN Parts(t)}
RECURSIVE Before(_, _)
Before(a, b) == /\ a # <<>> /\ b # <<>>
                /\ (a[1] < b[1] \/ (a[1] = b[1] /\ Before(Tail(a), Tail(b))))
Ordered(s) == \A i \in 1 .. Len(s) - 1 : Before(s[i], s[i + 1])

(* Every declared field exactly once, in declaration order; an error leaves a prefix of that.      *)
Exact ==
  /\ Ordered(log)
  /\ Range(log) \subseteq Declared(op, shape, <<>>)
  /\ state = "done" => /\ Range(log) = Declared(op, shape, <<>>)
                       /\ stopAt = 0 \/ stopAt > Len(log)
  /\ state = "error" => Len(log) = stopAt
(* The numbering used to judge the code says the same.                                             *)
Numbered ==
  state = "done" =>
    Len(log) = Len(CASE op = "write" -> Written(shape) [] op = "con" -> Checked(shape) [] OTHER -> AllWires(shape))
(* An operation on a composite is the operation on its parts, one after the other.                 *)
Compose ==
  state = "done" /\ shape.k # "rec" /\ shape.k \notin Leaf =>
    NumWires(shape) = FoldSeq(LAMBDA t, n : n + NumWires(t), 0, Parts(shape))
=============================================================================
