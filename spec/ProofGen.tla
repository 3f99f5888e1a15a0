------------------------------ MODULE ProofGen -------------------------------
(* Alterations of proofs to make on the code: every component, alone and in company, exchanged with *)
(* another proof's or altered; presented to the verifier, or fused.                                 *)
EXTENDS Proof, IOUtils, Json, Randomization, SequencesExt
CONSTANTS Hows,     \* ways to alter each component, for the verifier
          FuseHows, \* and for the next step
          Mixtures, \* random exchanges
          Fits      \* ways to alter a polynomial along with its commitment
Pairs == <<<<"mix", "mix2">>, <<"leaf", "leaf2">>, <<"rr", "deep">>, <<"deep", "mix">>, <<"pair", "mix">>, <<"mix2", "rr">>, <<"weigh", "deep">>>>
Kinds == <<"coeff", "swap", "double", "zero">>
Thens == <<"left", "right", "rr">>
Names == SetToSeq(Components)
Sc(i, comps, how, then, re) == [base |-> Pairs[1 + (i % Len(Pairs))][1], with |-> Pairs[1 + (i % Len(Pairs))][2], comps |-> comps,
                                how |-> how, at |-> (i * 7919) % 8192, then |-> then, recommit |-> re]
\* Where both carry data of one type.
Typed(sc) == [sc EXCEPT !.base = IF @ = "pair" THEN "mix" ELSE @, !.with = IF sc.base = "pair" THEN "mix2" ELSE @]
\* Only a number can be a right input.
Fit(sc) == IF sc.then = "right" /\ sc.base = "pair" THEN [sc EXCEPT !.then = "left"] ELSE sc
Off == RandomElement(0 .. 1000)
O == TLCEval(Off)
Singles == [k \in 1 .. Len(Names) * Hows |->
              LET i == (k - 1) \div Hows h == (k - 1) % Hows IN Sc(O + 3 * i + h, <<Names[i + 1]>>, Kinds[1 + ((h + (IF Hows = 4 THEN 0 ELSE O + i)) % 4)], "verify", FALSE)]
Fusings == [k \in 1 .. Len(Names) * FuseHows |->
              LET i == (k - 1) \div FuseHows h == (k - 1) % FuseHows IN
              Fit(Sc(O + 5 * i + h, <<Names[i + 1]>>, Kinds[1 + ((O + i + h) % 4)], Thens[1 + (((O \div 4) + i + h) % 3)], FALSE))]
Refit == LET C == SetToSeq(Committed) IN
         [k \in 1 .. Len(C) * Fits |-> LET i == (k - 1) \div Fits h == (k - 1) % Fits IN
            Sc(O + i + h, <<Rx(C[i + 1])>>, IF (O + i + h) % 2 = 0 THEN "double" ELSE "zero", "verify", TRUE)]
RefitFused == LET C == SetToSeq(Native) IN
         [k \in 1 .. (IF Fits > 1 THEN Len(C) ELSE 0) |-> Fit(Sc(O + k, <<Rx(C[k])>>, "double", Thens[1 + ((O + k) % 3)], TRUE))]
\* Other traces: something on the wires of a gate not in use; and other factors of a product.
Others == LET C == SetToSeq(Native \cup Bridges) N == SetToSeq(NestedOnly) IN
          [k \in 1 .. Len(C) |-> Sc(O + k, <<Rx(C[k])>>, "idle", "verify", TRUE)]
          \o [k \in 1 .. (IF Fits > 1 THEN Len(N) ELSE 2) |-> Sc(O + k, <<IF Fits > 1 THEN N[k] ELSE N[1 + ((O + k) % Len(N))]>>, "idle", "verify", TRUE)]
          \o [k \in 1 .. (IF Fits > 1 THEN 12 ELSE 3) |-> LET x == SetToSeq(Circuits)[1 + ((O + k) % Cardinality(Circuits))] IN
                Fit(Sc(O + k, <<Rx(x)>>, "idle", IF k % 2 = 0 THEN Thens[1 + ((O + k) % 3)] ELSE "verify", k % 3 # 0))]
          \o [k \in 1 .. 5 |-> Fit(Sc(O + k, IF k = 5 THEN <<"ab.a.rx">> ELSE <<"ab.a.rx", "ab.b.rx">>, "scale",
                                        IF k \in {1, 4} THEN Thens[1 + ((O + k) % 3)] ELSE "verify", k # 2))]
\* Exchanges of what belongs together, and of everything but something.
Groups == <<NestedOnly, Own, All \ Own, (All \ Own) \cup Headers, Unified, All, Challenges, Components, All \ {"ab.c"}, All \ NestedOnly,
            {Commitment(x) : x \in Committed}, {Rx(x) : x \in Committed}, Own \ {"application.commitment"}, Components \cap Own, {"data"}>>
Grouped == [k \in 1 .. 2 * Len(Groups) |-> Typed(Sc(O + k, SetToSeq(Groups[1 + ((k \div 2) % Len(Groups))]), "swap", IF k % 8 = 1 THEN "left" ELSE "verify", FALSE))]
LeafOwn == <<[base |-> "leaf", with |-> "leaf2", comps |-> SetToSeq(Own), how |-> "swap", at |-> 0, then |-> "verify", recommit |-> FALSE],
             [base |-> "leaf", with |-> "leaf2", comps |-> SetToSeq(Own), how |-> "swap", at |-> 0, then |-> "left", recommit |-> FALSE],
             [base |-> "leaf", with |-> "leaf2", comps |-> SetToSeq(Own \ {"application.rx"}), how |-> "swap", at |-> 0, then |-> "verify", recommit |-> FALSE],
             [base |-> "leaf", with |-> "leaf2", comps |-> SetToSeq(Own \ {"data"}), how |-> "swap", at |-> 0, then |-> "verify", recommit |-> FALSE]>>
Mixed == LET M == SetToSeq(RandomSubset(Mixtures, {S \in SUBSET RandomSubset(12, Components) : Cardinality(S) \in 2 .. 8})) IN
         [k \in 1 .. Len(M) |-> Sc(O + k, SetToSeq(M[k]), "swap", "verify", FALSE)]
None == [k \in 1 .. Len(Pairs) |-> Sc(k - 1, <<>>, "swap", IF k % 3 = 0 THEN "left" ELSE "verify", FALSE)]
ASSUME ndJsonSerialize(IOEnv.OUT, None \o LeafOwn \o Grouped \o Fusings \o Refit \o RefitFused \o Others \o Singles \o Mixed)
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
