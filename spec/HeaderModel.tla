---------------------------- MODULE HeaderModel -----------------------------
(* Any two headers of an application, whose header types all have suffixes of their own: their     *)
(* encodings have one length, end in the suffix, and are equal only for equal type and data. And   *)
(* all suffixes: those of applications are different from each other and from the internal ones.   *)
EXTENDS Header
CONSTANTS MaxSize, Values, Base, Digits
VARIABLES ph, ha, hb, n, u, v
vars == <<ph, ha, hb, n, u, v>>

E == [t |-> "elem"]
B == [t |-> "bool"]
Shapes == {[t |-> "unit"], E, B} \cup {[t |-> "vec", k |-> k, of |-> <<x>>] : k \in 0 .. 3, x \in {E, B}}
          \cup {[t |-> "seq", of |-> <<x, y>>] : x, y \in {[t |-> "unit"], E, B, [t |-> "vec", k |-> 2, of |-> <<E>>]}}
Data(s) == {d \in [1 .. Size(s) -> Values] : \A i \in 1 .. Size(s) : Kinds(s)[i] = "bool" => d[i] \in {0, 1}}
Words == [1 .. Digits -> 0 .. Base - 1]
None == [s |-> [t |-> "unit"], sfx |-> 1, data |-> <<>>]

Init == ph = "start" /\ ha = None /\ hb = None /\ n = 1 /\ u = Small(Digits, 0) /\ v = Small(Digits, 0)
Next == \/ /\ ph = "start" /\ ph' = "one"
           /\ n' \in 1 .. MaxSize
           /\ \E s \in Shapes, x \in 2 .. 3 : \E d \in Data(s) : ha' = [s |-> s, sfx |-> x, data |-> d]
           /\ UNCHANGED <<hb, u, v>>
        \/ /\ ph = "one" /\ ph' = "two"
           \* One suffix, one type.
           /\ \E s \in Shapes, x \in 1 .. 3 : \E d \in Data(s) :
                /\ (x = ha.sfx => s = ha.s)
                /\ (x = 1 => s = None.s)
                /\ hb' = [s |-> s, sfx |-> x, data |-> d]
           /\ UNCHANGED <<ha, n, u, v>>
        \/ /\ ph = "start" /\ ph' = "word"
           /\ u' \in Words /\ v' \in Words
           /\ UNCHANGED <<ha, hb, n>>

Enc(h) == Encoded(h.s, h.sfx, h.data, n)
Fixed == ph \in {"one", "two"} =>
           /\ ("ok" \in DOMAIN Enc(ha)) <=> (Len(ha.data) < n)
           /\ Fits(ha.s, n) => Len(Enc(ha).ok) = n /\ Enc(ha).ok[n] = ha.sfx
                               /\ \A i \in 1 .. n - 1 : i > Len(ha.data) => Enc(ha).ok[i] = 0
Separate == ph = "two" /\ Fits(ha.s, n) /\ Fits(hb.s, n) => (Enc(ha) = Enc(hb) <=> ha = hb)
SuffixMap == ph = "word" =>
           LET a == AppSuffix(u, Base) b == AppSuffix(v, Base) IN
           /\ "ok" \in DOMAIN a /\ "ok" \in DOMAIN b => (a = b <=> u = v)
           /\ "ok" \in DOMAIN a => a.ok \notin {Small(Digits, i) : i \in 0 .. Internal - 1}
           /\ "err" \in DOMAIN a <=> \A i \in 1 .. Digits - 1 : u[i] = Base - 1 /\ u[Digits] >= Base - Internal
=============================================================================
