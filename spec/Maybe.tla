------------------------------- MODULE Maybe -------------------------------
(* Witness availability: a register machine whose registers hold values that exist in the world   *)
(* "always" and do not exist in the world "empty". One instruction per public combinator. A step  *)
(* yields the registers, the closures that ran (with the argument each saw, in order), the number  *)
(* of live values, and the error that surfaced (-1: none; an error stops the program).             *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
M == 1009

Start == [n |-> 0, regs |-> <<>>, log |-> <<>>, live |-> 0, err |-> -1]
Call(f, v) == [f |-> f, v |-> v]
DropAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

\* The world in which witnesses exist: ordinary evaluation.
AlwaysStep(s, st) ==
  LET k == st.k  r == st.r  v == s.regs[r]
      push(x, lg) == [s EXCEPT !.n = @ + 1, !.regs = Append(@, x % M), !.live = @ + 1, !.log = lg]
      put(x, lg) == [s EXCEPT !.regs[r] = x % M, !.log = lg]
  IN CASE st.o \in {"just", "mjust"} -> push(k, <<Call("just", k)>>)
       [] st.o \in {"try", "mtry"} -> IF st.q > 1 THEN [s EXCEPT !.err = k, !.log = <<Call("try", k)>>]
                                      ELSE push(k, <<Call("try", k)>>)
       [] st.o = "map" -> put(v * 3 + k, <<Call("map", v)>>)
       [] st.o = "andthen" -> put(v * 5 + k, <<Call("and", v), Call("just", v)>>)
       [] st.o = "zip" ->
            LET w == s.regs[st.q]
                rest == IF r < st.q THEN DropAt(DropAt(s.regs, st.q), r) ELSE DropAt(DropAt(s.regs, r), st.q)
            IN [s EXCEPT !.n = @ - 1, !.live = @ - 1, !.regs = Append(rest, (v * 7 + w + k) % M),
                         !.log = <<Call("and", v), Call("map", w)>>]
       [] st.o = "clone" -> push(v, <<Call("clone", v)>>)
       [] st.o = "into" -> put(v, <<Call("into", v), Call("map", v)>>)
       [] st.o = "asref" -> push(v + k, <<Call("ref", v)>>)
       [] st.o = "snag" -> push(v + k, <<Call("snag", v)>>)
       [] st.o = "asmut" -> put(v * 2 + k, <<Call("mut", v)>>)
       [] st.o \in {"tuple", "array"} -> [s EXCEPT !.log = <<>>]      \* taken apart and put back: same values, same order
       [] st.o = "drop" -> [s EXCEPT !.n = @ - 1, !.live = @ - 1, !.regs = DropAt(@, r), !.log = <<>>]

\* The world in which they do not: only the shape of the computation remains.
EmptyStep(s, st) ==
  LET d == CASE st.o \in {"just", "mjust", "try", "mtry", "clone", "asref", "snag"} -> 1
             [] st.o \in {"zip", "drop"} -> -1
             [] OTHER -> 0
  IN [s EXCEPT !.n = @ + d]

Step(world, s, st) == IF world = "always" THEN AlwaysStep(s, st) ELSE EmptyStep(s, st)

\* Observations of a whole program, up to and including the first error.
Observe(world, prog) ==
  LET r == FoldLeft(LAMBDA acc, st : IF acc.s.err # -1 THEN acc
                                     ELSE LET t == Step(world, acc.s, st) IN [s |-> t, obs |-> Append(acc.obs, t)],
                    [s |-> Start, obs |-> <<>>], prog)
  IN r.obs

\* Which instructions can follow a state (by register count).
Enabled(n, st) ==
  CASE st.o \in {"just", "mjust", "try", "mtry"} -> TRUE
    [] st.o = "zip" -> st.r <= n /\ st.q <= n /\ st.r # st.q
    [] st.o = "tuple" -> st.r >= 1 /\ n - st.r + 1 \in 2 .. 32
    [] st.o = "array" -> st.r >= 1 /\ n - st.r + 1 \in {0, 1, 2, 3, 4, 5, 8, 13, 32}
    [] OTHER -> st.r <= n
=============================================================================
