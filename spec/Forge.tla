------------------------------- MODULE Forge -------------------------------
(* What the prover of a step comes up with, in order, and what the circuits   *)
(* of recursion and the verifier hold against it.                             *)
(*                                                                            *)
(* A proof is made by computing one value after another. A prover who departs *)
(* from the protocol puts another value in place of one, and goes on honestly *)
(* from there. Of every value we keep what forgings have gone into it (what   *)
(* it was computed from), and whether it is false: not what the polynomials   *)
(* and statements that it is about have.                                      *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC

Sides == {"left", "right"}
Challenges == {"w", "y", "z", "mu", "nu", "mu_prime", "nu_prime", "x", "alpha", "u", "pre_beta"}
Bridged == {"preamble", "s_prime", "inner_error", "outer_error", "ab", "query", "f", "eval"}
Rx == {"Application", "Hashes1", "Hashes2", "InnerCollapse", "OuterCollapse", "ComputeV", "Preamble", "InnerError",
       "OuterError", "Query", "Eval"}
Circuits == {"Hashes1Circuit", "Hashes2Circuit", "InnerCollapseCircuit", "OuterCollapseCircuit", "ComputeVCircuit"}
Masks == {"PreambleStage", "InnerErrorStage", "OuterErrorStage", "QueryStage", "EvalStage", "InnerErrorFinalStaged",
          "OuterErrorFinalStaged", "EvalFinalStaged"}
Internal == Circuits \cup Masks
Claims == {"raw", "application"} \cup Internal

CONSTANTS HeaderSize,   \* elements in a header; the last one tells the type
          Group, Groups \* claims are collapsed in Groups groups of Group each

\* The same set, all of it at hand.
Flat(S) == {x : x \in S}
Digit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
\* A number below 1000, in full.
Num(i) == (IF i >= 100 THEN Digit[1 + (i \div 100)] ELSE "") \o (IF i >= 10 THEN Digit[1 + ((i \div 10) % 10)] ELSE "") \o Digit[1 + (i % 10)]
C(x) == "challenges." \o x
Bc(x) == x \o ".bridge.commitment"
Of(s, x) == s \o "." \o x

Output(s) == {"preamble." \o s \o ".output_header." \o Num(i) : i \in 0 .. HeaderSize - 1}
Suffix(s) == "preamble." \o s \o ".output_header." \o Num(HeaderSize - 1)
Header(s) == "application." \o s \o "_header"
Headers == {Header(s) : s \in Sides}
Ky(s) == {"outer_error." \o s \o "." \o k : k \in {"application", "unified", "unified_bridge"}}
Kys == UNION {Ky(s) : s \in Sides}
InnerErrors(i) == {"inner_error.error." \o Num(i) \o "." \o Num(j) : j \in 0 .. (Group * (Group - 1)) - 1}
Inner == UNION {InnerErrors(i) : i \in 0 .. Groups - 1}
Outer == {"outer_error.error." \o Num(j) : j \in 0 .. (Groups * (Groups - 1)) - 1}
Collapsed == {"outer_error.collapsed." \o Num(i) : i \in 0 .. Groups - 1}
Sponge == {"outer_error.sponge." \o Num(i) : i \in 0 .. 4}
ChildQueries(s) == {"query." \o s \o ".rx." \o r : r \in Rx}
                   \cup {"query." \o s \o "." \o p : p \in {"a_poly", "b_poly", "child_registry_xy", "registry_circuit_id", "registry_wy"}}
Queries == {"query.fixed_registry." \o i : i \in Internal} \cup {"query.registry_wxy"} \cup UNION {ChildQueries(s) : s \in Sides}
ChildEvals(s) == {"eval." \o s \o ".rx." \o r : r \in Rx} \cup {"eval." \o s \o "." \o p : p \in {"a_poly", "b_poly", "registry_xy", "p_poly"}}
Evals == UNION {ChildEvals(s) : s \in Sides} \cup {"eval." \o p : p \in {"registry_wx0", "registry_wx1", "registry_wy", "a_poly", "b_poly", "registry_xy"}}
SPrime == {"s_prime.registry_wx0.rx", "s_prime.registry_wx1.rx"}
Registries == SPrime \cup {"inner_error.registry_wy.rx", "query.registry_xy.rx"}

\* What the prover comes up with, in order.
Prover == << Flat({"application.circuit_id", "application.rx"} \cup Headers), Flat(UNION {Output(s) : s \in Sides}),
             Flat({C("w")}), Flat(SPrime), Flat({C("y")}), Flat({C("z")}), Flat(Inner),
             Flat({"inner_error.registry_wy.rx"}), Flat({C("mu")}), Flat({C("nu")}),
             Flat(Outer \cup Collapsed \cup Kys \cup Sponge), Flat({C("mu_prime")}), Flat({C("nu_prime")}),
             Flat({"ab.a.rx", "ab.b.rx", "ab.c"}), Flat({C("x")}), Flat({"query.registry_xy.rx"}), Flat(Queries),
             Flat({C("alpha")}), Flat({"f.poly.rx"}), Flat({C("u")}), Flat(Evals), Flat({C("pre_beta")}),
             Flat({"p.poly.rx", "p.v"}) >>
\* Commitments that it makes to what it has come up with.
Committed == {"application.commitment", "s_prime.registry_wx0.commitment", "s_prime.registry_wx1.commitment",
              "ab.a.commitment", "ab.b.commitment", "f.poly.commitment", "p.poly.commitment"}
Made_ == UNION {Prover[k] : k \in DOMAIN Prover} \cup Committed
\* Sets that are large are worked out once and kept, since TLC would do it over at each use.
Keep(i, S) == TLCSet(i, TLCEval(S))
Made == TLCGet(1)
ASSUME Keep(1, Made_)

\* The public part of a proof.
Instance == {C(x) : x \in Challenges} \cup {Bc(x) : x \in Bridged} \cup {"ab.c", "p.v"}
Child(s, names) == {Of(s, x) : x \in names}

Names_ == (Made \cup Instance \cup UNION {Child(s, Instance \cup Headers \cup {"application.circuit_id"}) : s \in Sides})
Names == TLCGet(2)
ASSUME Keep(2, Names_)
\* Those that are not polynomials, nor commitments to such.
Tamperable_ == Names \ (Committed \cup SPrime \cup {"application.rx", "inner_error.registry_wy.rx", "ab.a.rx", "ab.b.rx",
                                                   "query.registry_xy.rx", "f.poly.rx", "p.poly.rx"})

Tamperable == TLCGet(3)
ASSUME Keep(3, Tamperable_)

(* Equations of the circuits: a value is recomputed from others.              *)
Eq(c, target, from) == [claim |-> c, target |-> target, from |-> Flat(from)]
\* What has been absorbed when the challenge is squeezed.
Before(x) == CASE x = "w" -> {"preamble"}
               [] x \in {"y", "z"} -> {"preamble", "s_prime"}
               [] x \in {"mu", "nu"} -> {}
               [] x \in {"mu_prime", "nu_prime"} -> {"outer_error"}
               [] x = "x" -> {"outer_error", "ab"}
               [] x = "alpha" -> {"outer_error", "ab", "query"}
               [] x = "u" -> {"outer_error", "ab", "query", "f"}
               [] x = "pre_beta" -> {"outer_error", "ab", "query", "f", "eval"}
Absorbed(x) == {Bc(b) : b \in Before(x)}
Equations_ ==
  \* The first half of the transcript, and the state it is left in;
  {Eq("Hashes1Circuit", {C(x)}, Absorbed(x)) : x \in {"w", "y", "z"}}
  \cup {Eq("Hashes1Circuit", {v}, {Bc("preamble"), Bc("s_prime"), Bc("inner_error")}) : v \in Sponge}
  \* the headers of the step are those of its inputs;
  \cup {Eq("Hashes1Circuit", {v}, {Header(s)}) : <<v, s>> \in UNION {Output(s) \X {s} : s \in Sides}}
  \* what the claims of the inputs come to;
  \cup UNION {{Eq("Hashes1Circuit", {"outer_error." \o s \o ".application"}, {C("y")} \cup Output(s) \cup Child(s, Headers)),
               Eq("Hashes1Circuit", {"outer_error." \o s \o ".unified"}, {C("y")} \cup Child(s, Instance)),
               Eq("Hashes1Circuit", {"outer_error." \o s \o ".unified_bridge"}, {C("y")} \cup Child(s, Instance \cup Headers))} : s \in Sides}
  \* the second half of the transcript;
  \cup {Eq("Hashes2Circuit", {C(x)}, Sponge \cup Absorbed(x)) : x \in Challenges \ {"w", "y", "z"}}
  \* each group of claims, collapsed.
  \cup {Eq("InnerCollapseCircuit", {"outer_error.collapsed." \o Num(i)},
           InnerErrors(i) \cup Kys \cup {C("mu"), C("nu"), "left.ab.c", "right.ab.c"}) : i \in 0 .. Groups - 1}

Equations == TLCGet(4)
ASSUME Keep(4, Equations_)

(* Identities: they hold of what is true, whatever it was computed from.      *)
Identity(c, about) == [claim |-> c, about |-> Flat(about)]
ChildPoints(s) == Child(s, {C("u"), C("y"), C("x"), "p.v", "application.circuit_id"})
Identities ==
  {Identity("OuterCollapseCircuit", {"claims", "ab.c", C("mu_prime"), C("nu_prime")} \cup Outer \cup Collapsed),
   Identity("ComputeVCircuit", {C(x) : x \in Challenges} \cup Queries \cup Evals \cup {"p.v", "ab.a.rx", "ab.b.rx", "f.poly.rx"}
                               \cup Registries \cup ChildPoints("left") \cup ChildPoints("right")),
   Identity("application", {"application.circuit_id", "application.rx"} \cup Headers),
   Identity("raw", {"ab.product"})}

(* What the circuit ComputeVCircuit asks of polynomials: what each is at a     *)
(* point, given what it is at u. Some of what they are to be is worked out:    *)
(* the factors of the folded claims, from what they are folded of.             *)
Ask(poly, at, value) == [poly |-> poly, at |-> at, value |-> value]
ChildAsked(s) ==
  LET wx == IF s = "left" THEN "eval.registry_wx0" ELSE "eval.registry_wx1"
      e(x) == "eval." \o s \o "." \o x
      q(x) == "query." \o s \o "." \o x IN
  {\* The last polynomial of an input is what it is said to be.
   Ask(e("p_poly"), Of(s, C("u")), Of(s, "p.v")),
   \* The registry of an input is that of the step, by way of polynomials that agree where they meet;
   Ask(e("registry_xy"), C("w"), q("child_registry_xy")), Ask(wx, Of(s, C("y")), q("child_registry_xy")),
   Ask(wx, C("y"), q("registry_wy")), Ask("eval.registry_wy", Of(s, C("x")), q("registry_wy")),
   \* the circuit of the input is in it;
   Ask("eval.registry_xy", Of(s, "application.circuit_id"), q("registry_circuit_id")),
   \* and its factors.
   Ask(e("a_poly"), "xz", q("a_poly")), Ask(e("b_poly"), C("x"), q("b_poly"))}
  \cup {Ask(e("rx." \o r), "xz", q("rx." \o r)) : r \in Rx}
Asked == ChildAsked("left") \cup ChildAsked("right")
         \cup {Ask("eval.registry_wy", C("x"), "query.registry_wxy"), Ask("eval.registry_xy", C("w"), "query.registry_wxy"),
               Ask("eval.a_poly", "xz", "ax"), Ask("eval.b_poly", C("x"), "bx")}
         \cup {Ask("eval.registry_xy", "circuit." \o i, "query.fixed_registry." \o i) : i \in Internal}
\* Every one of the values is given.
Given(v) == Flat(CASE v = "ax" -> UNION {{"query." \o s \o ".a_poly"} \cup {"query." \o s \o ".rx." \o r : r \in Rx} : s \in Sides}
                   [] v = "bx" -> UNION {{"query." \o s \o ".b_poly", "query." \o s \o ".registry_circuit_id"}
                                         \cup {"query." \o s \o ".rx." \o r : r \in Rx} : s \in Sides}
                                  \cup {"query.fixed_registry." \o i : i \in Internal}
                   [] OTHER -> {v})

(* A holding: what forgings went into each value (went, a function on names), *)
(* what is false, whether both inputs are of unit type, and what ids are in   *)
(* no registry.                                                               *)
\* What went into any of some values; went has only those into which something went.
Into(went, names) == UNION {went[x] : x \in names \cap DOMAIN went}
BrokenEq(e, went) == \E v \in e.target : Into(went, {v}) # Into(went, e.from)
BrokenId(i, false, base) == i.about \cap false # {} /\ ~(i.claim = "OuterCollapseCircuit" /\ base)
Broken(went, false, base, outside) ==
  {e.claim : e \in {e \in Equations : BrokenEq(e, went)}}
  \cup {i.claim : i \in {i \in Identities : BrokenId(i, false, base)}}
  \cup (IF outside \cap Child("left", {"application.circuit_id"}) # {} \/ outside \cap Child("right", {"application.circuit_id"}) # {}
        THEN {"Hashes1Circuit"} ELSE {})

\* What the bases are: which inputs are of unit type; in a leaf, they are proofs of nothing.
Unit(b) == CASE b = "leaf" -> Sides [] b = "root" -> {"left"} [] OTHER -> {}
Falsehoods(b) == IF b = "leaf" THEN {"claims"} ELSE {}

(* An alteration: of a value by name, in a way, with a parameter.             *)
Named(alter) == {a.name : a \in alter}
\* The element of a header that is altered.
At(a) == a.k % HeaderSize
\* Which inputs are taken to be of unit type, when the values in alter are not what they should be.
UnitNow(b, alter) ==
  {s \in Sides : IF \E a \in alter : a.name = Suffix(s)
                 THEN s \notin Unit(b) /\ \E a \in alter : a.name = Suffix(s) /\ a.how = "one"
                 ELSE s \in Unit(b)}

(* Values altered after the fact, none of them a polynomial.                  *)
Tampered(b, alter) ==
  Broken([v \in Named(alter) |-> {v}],
         Named(alter) \cup Falsehoods(b) \cup (IF "ab.c" \in Named(alter) THEN {"ab.product"} ELSE {}),
         UnitNow(b, alter) = Sides, {a.name : a \in {a \in alter : a.how = "outside"}})

(* The prover, a state machine: what it holds after each of its moves.        *)
Holding(b) == [went |-> <<>>, false |-> Falsehoods(b), unit |-> Unit(b), unopened |-> {}]
Targets_ == UNION {e.target : e \in Equations}
Targets == TLCGet(5)
ASSUME Keep(5, Targets_)
\* What a value is computed from; the prover has the state of the transcript from what was absorbed, before he saves it.
State == {Bc("preamble"), Bc("s_prime"), Bc("inner_error")}
From(v) == UNION {e.from : e \in {e \in Equations : v \in e.target}}
Inputs(v) == IF From(v) \cap Sponge = {} THEN From(v) ELSE (From(v) \ Sponge) \cup State
\* The commitments made to the values of a move, once all of them are there.
BridgedBy(k) == CASE k = 2 -> {"preamble"} [] k = 4 -> {"s_prime"} [] k = 8 -> {"inner_error"} [] k = 11 -> {"outer_error"}
                  [] k = 14 -> {"ab"} [] k = 17 -> {"query"} [] k = 19 -> {"f"} [] k = 21 -> {"eval"} [] OTHER -> {}
\* Computed from what is there; within a move, from what it was before anything of the move is forged.
Flow_ == {[to |-> v, k |-> k, early |-> Flat(Inputs(v) \ Prover[k]), late |-> Flat(Inputs(v) \cap Prover[k] \cap Targets)] :
           <<v, k>> \in {vk \in (Targets \cap Made) \X DOMAIN Prover : vk[1] \in Prover[vk[2]]}}
Flow == TLCGet(6)
ASSUME Keep(6, Flow_)
Computed(h, k) ==
  LET mine == {f \in Flow : f.k = k}
      first == {[to |-> f.to, went |-> Into(h.went, f.early)] : f \in mine}
      more == {r \in {[to |-> f.to, went |-> Into(h.went, f.early) \cup UNION {r.went : r \in {r \in first : r.to \in f.late}}] : f \in mine} : r.went # {}}
  IN [v \in {r.to : r \in more} |-> (CHOOSE r \in more : r.to = v).went]
\* What comes out false when it is computed from what is false.
ComputedFalse(h, k) ==
  CASE k = 2 -> {v \in Prover[k] : \E s \in Sides : v \in Output(s) /\ Header(s) \in h.false}
    [] k = 11 -> LET ky == {"outer_error." \o s \o ".application" : s \in {s \in Sides : Output(s) \cap h.false # {}}} IN
                 ky \cup (IF ky # {} THEN Collapsed ELSE {f.to : f \in {f \in Flow : f.to \in Collapsed /\ f.early \cap Inner \cap h.false # {}}})
    [] OTHER -> {}
\* A move: what is computed, and what is put in its place.
Move(h, k, alter) ==
  LET mine == {a \in alter : a.name \in Prover[k]}
      names == Named(mine)
      comp == Computed(h, k)
      forged == {a.name : a \in {a \in mine : a.how \notin {"fit"}}}
      factors == forged \cap {"ab.a.rx", "ab.b.rx"}
      fit == \E a \in mine : a.name = "ab.c" /\ a.how = "fit"
      \* Another product, fit to other factors.
      other == IF fit /\ factors # {} THEN {"ab.c"} ELSE {}
      false == forged \ ({C(x) : x \in Challenges} \cup {"p.poly.rx"})
      put == forged \cup other
      now == TLCEval([v \in put \cup DOMAIN comp |-> (IF v \in DOMAIN comp THEN comp[v] ELSE {}) \cup (IF v \in put THEN {v} ELSE {})])
      bridges == {Bc(x) : x \in BridgedBy(k)}
      sum == UNION {now[x] : x \in DOMAIN now}
      \* A polynomial is altered along with its commitment, or one of them alone.
      bare == {a.name : a \in {a \in mine : a.how = "bare"}} \ {"inner_error.registry_wy.rx", "query.registry_xy.rx"}
      more == {v \in DOMAIN now : now[v] # {}} \cup (IF sum = {} THEN {} ELSE bridges)
  IN [went |-> IF more = {} THEN h.went
               ELSE TLCEval([v \in more \cup DOMAIN h.went |-> IF v \in DOMAIN now THEN now[v] ELSE IF v \in bridges THEN sum ELSE h.went[v]]),
      false |-> h.false \cup false \cup other \cup ComputedFalse(h, k)
                \cup (IF (factors # {} \/ "ab.c" \in forged) /\ ~fit THEN {"ab.product"} ELSE {})
                \* What the proof says its last polynomial is at u.
                \cup (IF \E a \in mine : a.name = "p.poly.rx" /\ a.how # "vanish" THEN {"p.eval"} ELSE {}),
      unit |-> IF k = 1 THEN {s \in h.unit : ~\E a \in mine : a.name = Header(s) /\ At(a) = HeaderSize - 1}
               ELSE IF k = 2 THEN {s \in Sides : IF Suffix(s) \in names
                                                 THEN s \notin h.unit /\ \E a \in mine : a.name = Suffix(s) /\ a.how = "one"
                                                 ELSE s \in h.unit}
               ELSE h.unit,
      unopened |-> h.unopened \cup bare]
After(b, alter, n) == FoldLeft(LAMBDA h, k : TLCEval(Move(h, k, alter)), Holding(b), [k \in 1 .. n |-> k])
\* Commitments altered on their own.
Unmatched(alter) == {a.name : a \in {a \in alter : a.name \in Committed}}
\* Which claims do not hold of the proof, and whether it is accepted.
Failing(h) == Broken(h.went, h.false, h.unit = Sides, {})
Accepted(h, alter) == Failing(h) = {} /\ h.unopened = {} /\ "p.eval" \notin h.false /\ Unmatched(alter) = {}
Forged(b, alter) == LET h == After(b, alter, Len(Prover)) IN [broken |-> Failing(h), accepted |-> Accepted(h, alter)]

(* What may be forged. Of a step from nothing, the errors are free: its inputs *)
(* claim nothing. A product is what it would have been. And the code has a     *)
(* hole, listed as known: nothing but its value at u is asked of the last      *)
(* polynomial of a proof, which sums up all that are queried.                  *)
Free(b, alter) == \A a \in alter : \/ b = "leaf" /\ a.name \in Inner \cup Outer
                                   \/ a.name = "ab.c" /\ a.how = "fit"
Hole(alter) == \E a \in alter : a.name = "p.poly.rx" /\ a.how = "vanish"
Sound(b, alter, accepted) == accepted => \/ Free(b, alter)
                                         \/ Hole(alter) /\ Free(b, {a \in alter : a.name # "p.poly.rx"})

(* Polynomials: each has gates of its own. A circuit is run on the sum of its *)
(* own polynomial and those of its stages, and a mask sees to it that each is *)
(* zero but on its own gates.                                                 *)
Parent == [preamble |-> "", outer_error |-> "preamble", inner_error |-> "outer_error", query |-> "preamble", eval |-> "query",
           hashes_1 |-> "outer_error", hashes_2 |-> "outer_error", inner_collapse |-> "inner_error",
           outer_collapse |-> "outer_error", compute_v |-> "eval"]
Stages == {"preamble", "outer_error", "inner_error", "query", "eval"}
Polys == DOMAIN Parent
MaskOf == [preamble |-> "PreambleStage", outer_error |-> "OuterErrorStage", inner_error |-> "InnerErrorStage", query |-> "QueryStage",
           eval |-> "EvalStage", hashes_1 |-> "OuterErrorFinalStaged", hashes_2 |-> "OuterErrorFinalStaged",
           inner_collapse |-> "InnerErrorFinalStaged", outer_collapse |-> "OuterErrorFinalStaged", compute_v |-> "EvalFinalStaged"]
Summed == [Hashes1Circuit |-> {"hashes_1", "preamble", "outer_error"}, Hashes2Circuit |-> {"hashes_2", "outer_error"},
           InnerCollapseCircuit |-> {"inner_collapse", "preamble", "inner_error", "outer_error"},
           OuterCollapseCircuit |-> {"outer_collapse", "preamble", "outer_error"},
           ComputeVCircuit |-> {"compute_v", "preamble", "query", "eval"}]
RECURSIVE Start(_, _)
\* The first gate that is a polynomial's own; gate 0 is nobody's.
Start(p, size) == IF Parent[p] = "" THEN 1 ELSE Start(Parent[p], size) + size[Parent[p]]
Own(p, size, g) == g >= Start(p, size) /\ (p \in Stages => g < Start(p, size) + size[p])
\* Something is put on a gate of some polynomials: the masks of those whose gate it is not fail, and
\* of the rest at most the circuits that have not the same sum as before.
Strays(ps, size, g) == {MaskOf[p] : p \in {p \in ps : g # 0 /\ ~Own(p, size, g)}}
Unsure(ps) == {c \in DOMAIN Summed : Cardinality(Summed[c] \cap ps) = 1}

(* A proof that does not hold, taken for an input by an honest prover: what    *)
(* the claims come to is not what they should, and the next proof does not     *)
(* hold either. So it goes on, unless it is taken for a proof of nothing.      *)
\* What else is asked of an input, which does not show in its own claims.
AskedOf == {"p.v", C("u"), C("x"), C("y")}
Heir(own, alter) == (IF own # {} THEN {"OuterCollapseCircuit"} ELSE {})
                    \cup (IF Named(alter) \cap AskedOf # {} THEN {"ComputeVCircuit"} ELSE {})
(* What shows in the public values of a proof, when the randomness is the     *)
(* same: each commitment shows what it is made to, each challenge what was    *)
(* absorbed before it, and whatever comes after goes by the challenges.       *)
Order == << Bc("preamble"), C("w"), Bc("s_prime"), C("y"), C("z"), Bc("inner_error"), C("mu"), C("nu"), Bc("outer_error"), C("mu_prime"),
            C("nu_prime"), Bc("ab"), C("x"), Bc("query"), C("alpha"), Bc("f"), C("u"), Bc("eval"), C("pre_beta"), "p.v" >>
Place(x) == CHOOSE i \in DOMAIN Order : Order[i] = x
Since(x) == {Order[j] : j \in Place(x) .. Len(Order)} \cup (IF Place(x) < Place(Bc("ab")) THEN {"ab.c"} ELSE {})
\* A challenge that is forged, before what comes by it.
NextOf(x) == CASE x = "w" -> "s_prime" [] x \in {"y", "z"} -> "inner_error" [] x \in {"mu", "nu"} -> "outer_error" [] x \in {"mu_prime", "nu_prime"} -> "ab"
               [] x = "x" -> "query" [] x = "alpha" -> "f" [] x = "u" -> "eval"
\* By which public value, first, it shows that something else has been come up with.
ShowsBy == Flat({[in |-> Flat(Headers \cup UNION {Output(s) : s \in Sides}), by |-> "preamble"],
            [in |-> Flat(SPrime \cup {"s_prime.registry_wx0.commitment", "s_prime.registry_wx1.commitment"}), by |-> "s_prime"],
            [in |-> Flat(Inner \cup {"inner_error.registry_wy.rx"}), by |-> "inner_error"],
            [in |-> Flat(Outer \cup Collapsed \cup Kys \cup Sponge), by |-> "outer_error"],
            [in |-> {"ab.a.rx", "ab.b.rx", "ab.a.commitment", "ab.b.commitment"}, by |-> "ab"],
            [in |-> Flat(Queries \cup {"query.registry_xy.rx"}), by |-> "query"],
            [in |-> {"f.poly.rx", "f.poly.commitment"}, by |-> "f"],
            [in |-> Flat(Evals), by |-> "eval"]})
Shown(a) ==
  CASE a.name = C("pre_beta") -> {a.name, "p.v"}
    [] a.name \in {C(x) : x \in Challenges} -> {a.name} \cup (LET x == CHOOSE x \in Challenges : C(x) = a.name IN
                                                              Since(Bc(NextOf(x))) \cup (IF NextOf(x) = "ab" THEN {"ab.c"} ELSE {}))
    [] a.name \in {"ab.c", "p.v"} -> IF a.how = "fit" THEN {} ELSE {a.name}
    [] a.how = "bare" /\ a.name \in Registries \cup {"ab.a.rx", "ab.b.rx"} /\ a.name \notin {"inner_error.registry_wy.rx", "query.registry_xy.rx"} -> Since(Bc("f"))
    [] a.how = "bare" /\ a.name = "f.poly.rx" -> {"p.v"}
    [] a.name \in {"application.circuit_id", "application.rx", "application.commitment", "p.poly.rx", "p.poly.commitment"} -> {}
    [] OTHER -> Since(Bc((CHOOSE g \in ShowsBy : a.name \in g.in).by))
Fitted(alter) == Named(alter) \cap {"ab.a.rx", "ab.b.rx"} # {} /\ \E a \in alter : a.name = "ab.c" /\ a.how = "fit"
Changed(alter) == UNION {Shown(a) : a \in alter} \cup (IF Fitted(alter) THEN {"ab.c"} ELSE {})

(* What an honest prover is bound to of an input. What the proof of the input *)
(* says in public, and commitments to its circuits, are committed to first of *)
(* all; its polynomials show by what is computed of them, and the other       *)
(* commitments by those that are made up of them. What is not used does not.  *)
CircuitParts == {"circuits.hashes_1", "circuits.hashes_2", "circuits.inner_collapse", "circuits.outer_collapse", "circuits.compute_v"}
Native == {"application", "preamble", "inner_error", "outer_error", "query", "eval"} \cup CircuitParts
RxOf(x) == x \o ".rx"
Cm(x) == x \o ".commitment"
Once == {"s_prime.registry_wx0", "s_prime.registry_wx1", "inner_error.registry_wy", "query.registry_xy", "ab.a", "ab.b", "f.poly", "p.poly"}
Nested_ == {RxOf(x \o ".bridge") : x \in Bridged} \cup {"p.nested.endoscalar.rx", "p.nested.points.rx"} \cup {"p.nested.step." \o Num(i) \o ".rx" : i \in 0 .. 8}
Parts == Instance \cup Headers \cup {"application.circuit_id"} \cup Nested_ \cup UNION {{RxOf(x), Cm(x)} : x \in Native \cup Once}
First == {"application"} \cup CircuitParts
BoundBy(x) == CASE x \in Instance \cup Headers \cup {"application.circuit_id"} \cup {Cm(y) : y \in First} -> Since(Bc("preamble"))
                [] x \in {RxOf(y) : y \in Native \cup {"ab.a", "ab.b"}} -> Since(Bc("inner_error"))
                [] x \in {Cm(y) : y \in (Native \ First) \cup {"ab.a"}} -> Since(Bc("ab"))
                [] x = "query.registry_xy.rx" -> Since(Bc("query"))
                [] x = "p.poly.rx" -> Since(Bc("f"))
                [] OTHER -> {}
(* What each polynomial over the other curve's field holds of commitments.    *)
Asked_ == {"f.poly", "s_prime.registry_wx0", "s_prime.registry_wx1", "inner_error.registry_wy", "query.registry_xy", "ab.a", "ab.b"}
HeldBy(x) == CASE x = "preamble.bridge.rx" -> {"preamble.commitment"} \cup UNION {Child(s, {Cm(y) : y \in First}) : s \in Sides}
               [] x = "s_prime.bridge.rx" -> {Cm("s_prime.registry_wx0"), Cm("s_prime.registry_wx1")}
               [] x = "inner_error.bridge.rx" -> {Cm("inner_error"), Cm("inner_error.registry_wy")}
               [] x = "outer_error.bridge.rx" -> {Cm("outer_error")}
               [] x = "ab.bridge.rx" -> {Cm("ab.a"), Cm("ab.b")}
               [] x = "query.bridge.rx" -> {Cm("query"), Cm("query.registry_xy")}
               [] x = "f.bridge.rx" -> {Cm("f.poly")}
               [] x = "eval.bridge.rx" -> {Cm("eval")}
               \* All that are evaluated, and what they come to.
               [] x = "p.nested.points.rx" -> {Cm(y) : y \in Asked_ \cup {"p.poly"}}
                                              \cup UNION {Child(s, {Cm(y) : y \in Native \cup {"ab.a", "ab.b", "query.registry_xy", "p.poly"}}) : s \in Sides}
               [] OTHER -> {}
=============================================================================
