------------------------------- MODULE CraftGen ------------------------------
(* Proofs to make that fit at a point: of every kind, on every polynomial and  *)
(* on values shown; for points that are in the proof or anyone's.              *)
EXTENDS Craft, IOUtils, Json, Randomization, SequencesExt
CONSTANTS Points,   \* for each
          Shown     \* sets of values
O == TLCEval(RandomElement(0 .. 9999))
Names == <<"one", "challenges.y", "challenges.z", "two", "challenges.w", "challenges.x", "zero", "challenges.u", "challenges.alpha", "challenges.pre_beta",
           "challenges.mu", "challenges.nu", "challenges.mu_prime", "challenges.nu_prime", "ab.c", "p.v">>
\* Of the points, those likeliest to be what another is mistaken for come first.
Point(first, i, k) == IF k = 1 THEN first[1 + ((O + i) % Len(first))] ELSE Names[1 + ((O + i * 5 + k) % Len(Names))]
Ys == <<"challenges.y", "one", "challenges.y", "challenges.x">>
Zs == <<"challenges.z", "one", "challenges.z", "challenges.w">>
Ws == <<"challenges.w", "one", "challenges.w", "zero">>
Base(i) == <<"mix", "leaf">>[1 + ((O + i) % 2)]
Sc(base, side, what, on, point) == [base |-> base, side |-> side, what |-> what, on |-> on, point |-> point]
Times(n, f(_, _)) == [j \in 1 .. n * Points |-> f(1 + ((j - 1) \div Points), 1 + ((j - 1) % Points))]
Rxs == SetToSeq(NativeRx)
Natives == SetToSeq(NativeRx \cup NativeStages)
\* One step's own gates, and what they all read.
Nesteds == [k \in 1 .. Steps + 2 |-> IF k <= Steps THEN StepPoly(k - 1) ELSE <<"p.nested.endoscalar", "p.nested.points">>[k - Steps]]
SomeOf(i) == <<"one", "two", "one", "challenges.y", "one", "challenges.z">>[1 + ((O + i) % 6)]
All == Times(Len(Natives), LAMBDA i, k : Sc(Base(i + k), "native", "y", <<Natives[i]>>, Point(Ys, i, k)))
       \o Times(Len(Rxs), LAMBDA i, k : Sc(Base(i + k), "native", "z", <<Rxs[i]>>, Point(Zs, i, k)))
       \o Times(Len(Nesteds), LAMBDA i, k : Sc(Base(i + k), "nested", "y", <<Nesteds[i]>>, SomeOf(i + k)))
       \o Times(Steps, LAMBDA i, k : Sc(Base(i + k), "nested", "z", <<StepPoly(i - 1)>>, SomeOf(i + k)))
       \o Times(Steps, LAMBDA i, k : Sc(Base(i + k), "nested", "fold", <<StepPoly(i - 1), StepPoly((i - 1 + k) % Steps)>>, SomeOf(i + k)))
Folds == LET P == SetToSeq({p \in FoldedOver \X FoldedOver : p[1] # p[2]}) IN
         Times(Len(P), LAMBDA i, k : Sc(Base(i + k), "native", "fold", P[i], Point(Zs, i, k)))
Registries == [k \in 1 .. Len(Names) |-> Sc(Base(k), "native", "w", <<"query.registry_xy">>, Names[k])]
\* More values than equations about them: two where they show in one, three where in two.
Heads == SetToSeq({x \o y : x \in {"application.left_header#", "application.right_header#"}, y \in {"0", "1", "2", "3"}})
Free == <<"challenges.w", "challenges.mu", "challenges.nu", "challenges.mu_prime", "challenges.nu_prime", "challenges.alpha", "challenges.pre_beta">>
Pick(s, n) == s[1 + (n % Len(s))]
Value(k) == CASE k % 4 = 0 -> Sc("pair", "native", "shown", <<"data#0", "data#1">>, Point(Ys, k \div 4, 1 + ((k \div 4) % 2)))
              [] k % 4 = 1 -> Sc(Base(k), "native", "shown", <<Pick(Free, O + k), Pick(Free, O + k + 1 + (k % 5))>>, Point(Ys, k \div 4, 1 + ((k \div 4) % 2)))
              [] k % 4 = 2 -> Sc("pair", "native", "shown", <<"data#0", Pick(Heads, O + k), Pick(Heads, O + k + 1 + (k % 6))>>, Point(Ys, k \div 4, 1 + ((k \div 4) % 2)))
              [] OTHER -> Sc("pair", "native", "shown", <<"data#1", Pick(Heads, O + k), Pick(Free, O + k), Pick(Free, O + k + 3), "data#0">>, Point(Ys, k \div 4, 2))
Values_ == [k \in 1 .. Shown |-> Value(k)]
ASSUME ndJsonSerialize(IOEnv.OUT, All \o Folds \o Registries \o Values_)
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
