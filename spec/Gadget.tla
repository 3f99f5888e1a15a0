------------------------------- MODULE Gadget -------------------------------
(* What each primitive gadget promises about the values on its wires.                               *)
(*                                                                                                  *)
(* A claim is [o, k, a, r]: gadget o with parameter k was given arguments whose wires hold a[1],     *)
(* a[2], ... (each a sequence of field elements) and produced wires holding r. `env` has the         *)
(* curve's b, the cube root of unity zeta and the non-residue g.                                     *)
(*   Defined(c, env) -- a result exists for these arguments;                                         *)
(*   Open(c, env)    -- the documentation leaves the result open (0/0, and points that coincide:     *)
(*                      the caller has to exclude them);                                             *)
(*   Value(c, env)   -- the result, when it is defined;                                              *)
(*   Rel(c, env)     -- what may be on the wires of a satisfying assignment.                         *)
EXTENDS Sponge, Fold

Bit(b) == IF b THEN 1 ELSE 0
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
Capacity == Log2(P)              \* bits that always fit: 2^Capacity <= P

CoeffValue(k) == CASE k[1] = "0" -> 0 [] k[1] = "1" -> 1 [] k[1] = "2" -> 2 % P [] k[1] = "-1" -> Neg(1)
                   [] k[1] = "c" -> k[2] % P [] k[1] = "-c" -> Neg(k[2] % P)
IsBit(v) == v \in {0, 1}
Pack(bits) == FoldRight(LAMBDA b, acc : (acc * 2 + b) % P, bits, 0)
Horner(xs, s) == FoldLeft(LAMBDA acc, x : Add(Mul(acc, s), x), 0, xs)
One(a) == a[1]                   \* the element of an argument that is one element

Endo(pt, env) == IF pt = <<>> THEN pt ELSE <<Mul(pt[1], env.zeta), pt[2]>>

\* An addition as the circuits perform it: "ok" with a result, "open" when both points are the same,
\* "none" when they are opposite.
Chord(p, q) == IF p[1] # q[1] THEN [s |-> "ok", p |-> PtAdd(p, q)]
               ELSE [s |-> IF p[2] = q[2] THEN "open" ELSE "none", p |-> <<>>]
DoubleAdd(p, q) ==               \* 2p + q as (p + q) + p
  LET r == Chord(p, q)
  IN  IF r.s # "ok" THEN r ELSE Chord(r.p, p)
EndoPoint(bits, i, p, env) ==    \* the point that bits 2i-1, 2i select
  LET q == IF bits[2 * i - 1] = 1 THEN PtNeg(p) ELSE p
  IN  IF bits[2 * i] = 1 THEN Endo(q, env) ELSE q
Scale(bits, p, env) ==
  LET first == Chord(Endo(p, env), p)
      acc0 == IF first.s = "ok" THEN [s |-> "ok", p |-> PtAdd(first.p, first.p)] ELSE first
  IN  FoldLeft(LAMBDA acc, i : IF acc.s # "ok" THEN acc ELSE DoubleAdd(acc.p, EndoPoint(bits, i, p, env)),
               acc0, [i \in 1 .. Len(bits) \div 2 |-> i])
\* The scalar an endoscalar stands for, in a field with cube root of unity z.
Lift(bits, z) ==
  FoldLeft(LAMBDA acc, i : Add(Mul(2, acc), LET s == IF bits[2 * i - 1] = 1 THEN Neg(1) ELSE 1
                                           IN  IF bits[2 * i] = 1 THEN Mul(s, z) ELSE s),
           Mul(2, Add(z, 1)), [i \in 1 .. Len(bits) \div 2 |-> i])
ExtractBit(v, i) == Bit(IsSquare(Add(v, i % P)))

\* What a sponge hands out over a whole history, in one sequence.
SpongeOuts(k, xs) ==
  LET val(i) == xs[Cardinality({j \in 1 .. i : k.ops[j].o = "absorb"})]
      ops == [i \in DOMAIN k.ops |-> IF k.ops[i].o = "absorb" THEN [o |-> "absorb", v |-> val(i)] ELSE k.ops[i]]
  IN  FoldLeft(LAMBDA acc, r : acc \o r.cells, <<>>, SpongeRun(k.params, ops))

Asserts == {"ez", "equal", "cond_eq", "root", "consistent"}

Holds(c, env) ==                 \* for gadgets that only assert
  CASE c.o = "ez" -> c.a[1][1] = 0
    [] c.o = "equal" -> c.a[1] = c.a[2]
    [] c.o = "cond_eq" -> c.a[1][1] = 1 => c.a[2] = c.a[3]
    [] c.o = "root" -> Pow(c.a[1][1], 2 ^ c.k) = 1
    [] c.o = "consistent" -> CASE c.k = "P" -> OnCurve(c.a[1], env.b)
                               [] c.k = "B" -> IsBit(c.a[1][1])
                               [] c.k = "E" -> TRUE

Defined(c, env) ==
  CASE c.o \in Asserts -> Holds(c, env)
    [] c.o \in {"invert", "claimfold"} -> c.a[1][1] # 0
    [] c.o = "div" -> c.a[2][1] # 0
    [] c.o \in {"padd", "padd_nz"} -> c.a[1][1] # c.a[2][1]
    [] c.o = "pdbladd" -> DoubleAdd(c.a[1], c.a[2]).s = "ok"
    [] c.o = "group_scale" -> Scale(c.a[1], c.a[2], env).s = "ok"
    [] OTHER -> TRUE
Open(c, env) ==
  CASE c.o = "div" -> c.a[1][1] = 0 /\ c.a[2][1] = 0
    [] c.o \in {"padd", "padd_nz"} -> c.a[1] = c.a[2]
    [] c.o = "pdbladd" -> DoubleAdd(c.a[1], c.a[2]).s = "open"
    [] c.o = "group_scale" -> Scale(c.a[1], c.a[2], env).s = "open"
    [] c.o = "extract" -> Add(c.a[1][1], c.k % P) = 0
    [] OTHER -> FALSE

Value(c, env) ==
  LET a == c.a
      x == a[1][1]
      y == a[2][1]
      cat == [i \in 1 .. Len(a) |-> a[i][1]]
  IN CASE c.o \in Asserts -> <<>>
       [] c.o = "one" -> <<1>>
       [] c.o = "zero" -> <<0>>
       [] c.o = "const" -> <<c.k>>
       [] c.o = "pconst" -> c.k
       [] c.o = "salloc" -> c.k
       [] c.o = "mul" -> <<Mul(x, y)>>
       [] c.o = "square" -> <<Mul(x, x)>>
       [] c.o = "neg" -> <<Neg(x)>>
       [] c.o = "add" -> <<Add(x, y)>>
       [] c.o = "sub" -> <<Sub(x, y)>>
       [] c.o = "add_coeff" -> <<Add(x, Mul(y, CoeffValue(c.k)))>>
       [] c.o = "scale" -> <<Mul(x, CoeffValue(c.k))>>
       [] c.o = "double" -> <<Add(x, x)>>
       [] c.o = "invert" -> <<Inv(x)>>
       [] c.o = "div" -> <<Div(x, y)>>
       [] c.o = "is_zero" -> <<Bit(x = 0)>>
       [] c.o = "is_equal" -> <<Bit(x = y)>>
       [] c.o = "fold" -> <<Horner(Tail(cat), x)>>
       [] c.o = "sum" -> <<SumSeq(cat)>>
       [] c.o = "multiadd" -> <<Dot(cat, c.k)>>
       [] c.o = "not" -> <<1 - x>>
       [] c.o = "and" -> <<x * y>>
       [] c.o \in {"belement", "bdemote"} -> <<x>>
       [] c.o = "select" -> <<IF x = 1 THEN a[3][1] ELSE y>>
       [] c.o = "multipack" ->
            [i \in 1 .. (Len(a) + Capacity - 1) \div Capacity |->
               Pack(SubSeq(cat, (i - 1) * Capacity + 1, IF i * Capacity < Len(a) THEN i * Capacity ELSE Len(a)))]
       [] c.o = "endo" -> Endo(a[1], env)
       [] c.o = "pneg" -> PtNeg(a[1])
       [] c.o = "cendo" -> IF y = 1 THEN Endo(a[1], env) ELSE a[1]
       [] c.o = "cneg" -> IF y = 1 THEN PtNeg(a[1]) ELSE a[1]
       [] c.o = "pdouble" -> PtAdd(a[1], a[1])
       [] c.o = "padd" -> PtAdd(a[1], a[2])
       [] c.o = "padd_nz" -> PtAdd(a[1], a[2]) \o <<Mul(a[3][1], Sub(y, x))>>
       [] c.o = "pdbladd" -> DoubleAdd(a[1], a[2]).p
       [] c.o = "group_scale" -> Scale(a[1], a[2], env).p
       [] c.o = "lift" -> <<Lift(a[1], env.zeta)>>
       [] c.o = "sponge" -> SpongeOuts(c.k, cat)
       [] c.o = "claimfold" -> <<ClaimValue(c.k, x, y, SubSeq(cat, 3, 2 + c.k * c.k - c.k), SubSeq(cat, 3 + c.k * c.k - c.k, Len(cat)))>>
       [] c.o = "twolayer" -> <<TwoLayer(SubSeq(cat, 3, Len(cat)), c.k[1], c.k[2], x, y)>>
       [] c.o = "extract" -> <<ExtractBit(x, c.k)>>

\* Wires a program starts from: nothing but their own shape restricts them.
Inputs == {"alloc", "free", "bfree", "pfree", "alloc_square", "balloc", "palloc", "invert_with"}
InputOK(c, env) ==
  CASE c.o \in {"alloc", "free", "bfree", "pfree"} -> TRUE
    [] c.o = "alloc_square" -> c.r[2] = Mul(c.r[1], c.r[1])
    [] c.o = "balloc" -> IsBit(c.r[1])
    [] c.o = "palloc" -> OnCurve(c.r, env.b)
    [] c.o = "invert_with" -> Mul(c.a[1][1], c.r[1]) = 1

Rel(c, env) ==
  IF c.o \in Inputs THEN InputOK(c, env)
  ELSE IF Defined(c, env) THEN c.r = Value(c, env) \/ Open(c, env)
  ELSE Open(c, env) /\ (c.o = "padd_nz" => c.r[3] = 0)
=============================================================================
