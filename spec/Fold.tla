-------------------------------- MODULE Fold --------------------------------
(* Reducing many inner-product claims <a_i, b_i> = k_i to one.                                       *)
(*                                                                                                  *)
(* The a's are folded with mu^-1 and the b's with mu*nu (first item highest). What the folded pair    *)
(* multiplies to is a combination of all products of an a and a b: the claimed k_i on the diagonal    *)
(* and the error terms off it, listed row by row. Two layers: claims in groups of m, n groups; a      *)
(* missing claim is the zero claim.                                                                  *)
EXTENDS Field

FoldScalars(xs, s) == FoldLeft(LAMBDA acc, x : Add(Mul(acc, s), x), 0, xs)
Group(xs, m, g, zero) == [i \in 1 .. m |-> IF (g - 1) * m + i <= Len(xs) THEN xs[(g - 1) * m + i] ELSE zero]
TwoLayer(xs, n, m, s1, s2) ==
  FoldScalars([g \in 1 .. n |-> FoldScalars(Group(xs, m, g, 0), s1)], s2)

OffDiagonal(n) ==                \* row by row
  FoldLeft(LAMBDA acc, i : acc \o SelectSeq([j \in 1 .. n |-> <<i, j>>], LAMBDA q : q[1] # q[2]), <<>>, [i \in 1 .. n |-> i])
Entry(n, errs, kys, i, j) == IF i = j THEN kys[i] ELSE errs[(i - 1) * (n - 1) + (IF j < i THEN j ELSE j - 1)]
ClaimValue(n, mu, nu, errs, kys) ==
  FoldScalars([i \in 1 .. n |-> FoldScalars([j \in 1 .. n |-> Entry(n, errs, kys, i, j)], Mul(mu, nu))], Inv(mu))

--------------------------------------------------------------------------------------------------
(* The order of the claims about p proofs. A claim is [t, id, rx]; rx names what is combined, as      *)
(* <<proof, component>>.                                                                             *)
NativeIds == <<"Hashes1Circuit", "Hashes2Circuit", "InnerCollapseCircuit", "OuterCollapseCircuit", "ComputeVCircuit",
               "PreambleStage", "InnerErrorStage", "OuterErrorStage", "QueryStage", "EvalStage",
               "InnerErrorFinalStaged", "OuterErrorFinalStaged", "EvalFinalStaged">>
\* A staged circuit's own trace plus the stages it is built on; a mask covers the traces it restricts.
NativeParts(id) ==
  CASE id = "Hashes1Circuit" -> <<"Hashes1", "Preamble", "OuterError">>
    [] id = "Hashes2Circuit" -> <<"Hashes2", "OuterError">>
    [] id = "InnerCollapseCircuit" -> <<"InnerCollapse", "Preamble", "InnerError", "OuterError">>
    [] id = "OuterCollapseCircuit" -> <<"OuterCollapse", "Preamble", "OuterError">>
    [] id = "ComputeVCircuit" -> <<"ComputeV", "Preamble", "Query", "Eval">>
    [] id = "PreambleStage" -> <<"Preamble">>
    [] id = "InnerErrorStage" -> <<"InnerError">>
    [] id = "OuterErrorStage" -> <<"OuterError">>
    [] id = "QueryStage" -> <<"Query">>
    [] id = "EvalStage" -> <<"Eval">>
    [] id = "InnerErrorFinalStaged" -> <<"InnerCollapse">>
    [] id = "OuterErrorFinalStaged" -> <<"Hashes1", "Hashes2", "OuterCollapse">>
    [] id = "EvalFinalStaged" -> <<"ComputeV">>
Circuits == {"Hashes1Circuit", "Hashes2Circuit", "InnerCollapseCircuit", "OuterCollapseCircuit", "ComputeVCircuit"}
Cat(n, f(_)) == FoldLeft(LAMBDA acc, i : acc \o f(i), <<>>, [i \in 1 .. n |-> i])
Proofs(p, f(_)) == [i \in 1 .. p |-> f(i)]
OfId(p, id, parts, circuit) ==
  IF circuit
  THEN [i \in 1 .. p |-> [t |-> "circuit", id |-> id, rx |-> [j \in DOMAIN parts |-> <<i, parts[j]>>]]]
  ELSE <<[t |-> "bonding", id |-> id, rx |-> Cat(Len(parts), LAMBDA j : [i \in 1 .. p |-> <<i, parts[j]>>])]>>
NativeClaims(p) ==
  [i \in 1 .. p |-> [t |-> "raw", id |-> "", rx |-> <<<<i, "AbA">>, <<i, "AbB">>>>]]
  \o [i \in 1 .. p |-> [t |-> "app", id |-> ToString(i), rx |-> <<<<i, "Application">>>>]]
  \o Cat(Len(NativeIds), LAMBDA k : OfId(p, NativeIds[k], NativeParts(NativeIds[k]), NativeIds[k] \in Circuits))

\* What each claim's product has to be.
KyOf(c) == CASE c.t = "raw" -> ToString(c.rx[1][1]) \o ".c"
             [] c.t = "app" -> ToString(c.rx[1][1]) \o ".app"
             [] c.t = "circuit" /\ c.id = "Hashes1Circuit" -> ToString(c.rx[1][1]) \o ".bridge"
             [] c.t = "circuit" -> ToString(c.rx[1][1]) \o ".unified"
             [] OTHER -> "0"
\* The values as they are listed: per kind, proof by proof, and zeros for ever.
NativeKys(p, n) ==
  LET of(s) == [i \in 1 .. p |-> ToString(i) \o s]
      l == of(".c") \o of(".app") \o of(".bridge") \o of(".unified") \o of(".unified") \o of(".unified") \o of(".unified")
  IN  [i \in 1 .. n |-> IF i <= Len(l) THEN l[i] ELSE "0"]

\* The other field: one circuit per endoscaling step, then masks.
NestedSteps == 9
Step(k) == "EndoscalingStep" \o ToString(k)
NestedMasks == <<"EndoscalarStage", "PointsStage", "PointsFinalStaged", "BridgePreamble", "BridgeSPrime", "BridgeInnerError",
                 "BridgeOuterError", "BridgeAB", "BridgeQuery", "BridgeF", "BridgeEval">>
NestedIds == [k \in 1 .. NestedSteps |-> Step(k - 1)] \o NestedMasks
NestedParts(id) == IF id = "PointsFinalStaged" THEN [k \in 1 .. NestedSteps |-> Step(k - 1)] ELSE <<id>>
NestedClaims(p) ==
  Cat(NestedSteps, LAMBDA k : OfId(p, Step(k - 1), <<Step(k - 1), "EndoscalarStage", "PointsStage">>, TRUE))
  \o Cat(Len(NestedMasks), LAMBDA k : OfId(p, NestedMasks[k], NestedParts(NestedMasks[k]), FALSE))
NestedKys(n) == [i \in 1 .. n |-> IF i <= NestedSteps THEN "1" ELSE "0"]
=============================================================================
