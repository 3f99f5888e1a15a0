------------------------------- MODULE Sponge -------------------------------
(* The duplex sponge and the transcript on top of it.                                               *)
(*                                                                                                  *)
(* A sponge is [st, pend, out]: the state after the last permutation, the values absorbed since, and *)
(* how many outputs of the state were handed out (-1 while absorbing). PB(st, block) is the state     *)
(* after adding a block to the first cells and permuting, Cell(st, i) the content of a cell: the      *)
(* machine does not care whether the permutation is the real one or a symbol.                        *)
EXTENDS Field

Fresh(s0) == [st |-> s0, pend |-> <<>>, out |-> -1]

Absorb(PB(_, _), rate, m, v) ==
  IF m.out >= 0 THEN [m EXCEPT !.pend = <<v>>, !.out = -1]
  ELSE IF Len(m.pend) = rate THEN [m EXCEPT !.st = PB(m.st, m.pend), !.pend = <<v>>]
  ELSE [m EXCEPT !.pend = Append(@, v)]

SqueezeErr(m) == IF m.out = -1 /\ m.pend = <<>> THEN "empty" ELSE ""
Squeeze(PB(_, _), rate, m) ==            \* the output is then cell `out` of the state
  CASE m.out = -1 -> [st |-> PB(m.st, m.pend), pend |-> <<>>, out |-> 1]
    [] m.out = rate -> [m EXCEPT !.st = PB(m.st, <<>>), !.out = 1]
    [] OTHER -> [m EXCEPT !.out = @ + 1]

SaveErr(m) == IF m.out >= 0 THEN "squeezing" ELSE IF m.pend = <<>> THEN "nothing" ELSE ""
\* Saving and resuming: the state is handed out whole, and only outputs follow.
SaveResume(PB(_, _), m) == [st |-> PB(m.st, m.pend), pend |-> <<>>, out |-> 0]

\* A machine with slots to fork from. `resumed` is "" for a full transcript (and a bare sponge), "new"
\* after resuming, "used" once something was squeezed.
Start(m) == [m |-> m, slots |-> <<>>, resumed |-> "", gone |-> FALSE]
\* Operation op gives [s, err, cells]: the next machine, the refusal ("" for none), the outputs.
Do(PB(_, _), Cell(_, _), rate, t, transcript, s, op) ==
  LET m == s.m
      no(e) == [s |-> s, err |-> e, cells |-> <<>>]
  IN CASE op.o = "absorb" -> [no("") EXCEPT !.s.m = Absorb(PB, rate, m, op.v)]
       [] op.o = "squeeze" ->
            IF SqueezeErr(m) # "" THEN no(SqueezeErr(m))
            ELSE LET n == Squeeze(PB, rate, m)
                 IN  [s |-> [s EXCEPT !.m = n, !.resumed = IF @ = "" THEN "" ELSE "used"], err |-> "",
                      cells |-> <<Cell(n.st, n.out)>>]
       [] op.o = "save" ->
            IF SaveErr(m) # "" THEN no(SaveErr(m))
            ELSE LET n == SaveResume(PB, m)
                 IN  [s |-> [s EXCEPT !.m = n, !.resumed = IF transcript THEN "new" ELSE ""], err |-> "",
                      cells |-> [i \in 1 .. t |-> Cell(n.st, i)]]
       [] op.o = "into" -> IF s.resumed = "used" THEN [no("") EXCEPT !.s.resumed = ""]
                           ELSE [no("refused") EXCEPT !.s.gone = TRUE]
       [] op.o = "fork" -> [no("") EXCEPT !.s.slots = (op.i :> m) @@ s.slots]
       [] op.o = "goto" -> [no("") EXCEPT !.s.m = s.slots[op.i], !.s.resumed = ""]

\* The whole history: the sequence of [err, cells].
RunOps(PB(_, _), Cell(_, _), rate, t, transcript, m0, ops) ==
  LET step(acc, op) == LET d == Do(PB, Cell, rate, t, transcript, acc.s, op)
                       IN  [s |-> d.s, res |-> Append(acc.res, [err |-> d.err, cells |-> d.cells])]
  IN  FoldLeft(step, [s |-> Start(m0), res |-> <<>>], ops).res

\* A transcript first absorbs the length of its label and then its content, 16 bytes to an element
\* (`n` here), lowest byte first.
LabelChunks(tag, n) ==
  [i \in 1 .. (Len(tag) + n - 1) \div n |->
     [j \in 1 .. n |-> IF (i - 1) * n + j <= Len(tag) THEN tag[(i - 1) * n + j] ELSE 0]]

--------------------------------------------------------------------------------------------------
\* The permutation with parameters k = [t, rate, full, partial, rc, mds] over the field.
PowFive(x) == LET s == Mul(x, x) IN Mul(Mul(s, s), x)
Round(k, i, st) ==
  LET half == k.full \div 2
      wide == IF i <= half \/ i > half + k.partial THEN k.t ELSE 1
      a == TLCEval([j \in 1 .. k.t |-> LET v == Add(st[j], k.rc[i][j]) IN IF j <= wide THEN PowFive(v) ELSE v])
  IN  TLCEval([j \in 1 .. k.t |-> Dot(a, k.mds[j])])
Permute(k, st) == FoldLeftDomain(LAMBDA acc, i : Round(k, i, acc), st, k.rc)
AddBlock(k, st, block) == TLCEval([j \in 1 .. k.t |-> IF j <= Len(block) THEN Add(st[j], block[j]) ELSE st[j]])

SpongeRun(k, ops) ==             \* a bare sponge, numbers
  RunOps(LAMBDA st, b : Permute(k, AddBlock(k, st, b)), LAMBDA st, i : st[i], k.rate, k.t, FALSE,
         Fresh([i \in 1 .. k.t |-> 0]), ops)
LabelNumber(bytes) == FoldRight(LAMBDA b, acc : (acc * 256 + b) % P, bytes, 0)
TranscriptRun(k, tag, ops) ==
  LET PB(st, b) == Permute(k, AddBlock(k, st, b))
      prefix == <<Len(tag) % P>> \o [i \in DOMAIN LabelChunks(tag, 16) |-> LabelNumber(LabelChunks(tag, 16)[i])]
      m0 == FoldLeft(LAMBDA m, v : Absorb(PB, k.rate, m, v), Fresh([i \in 1 .. k.t |-> 0]), prefix)
  IN  RunOps(PB, LAMBDA st, i : st[i], k.rate, k.t, TRUE, m0, ops)
=============================================================================
