----------------------------- MODULE InvariantMC ----------------------------
(* Numbering the modes one after the other, always the next in the order, as a *)
(* state machine; the closed formula must agree at every step.                 *)
EXTENDS Invariant, TLC
CONSTANTS Scope      \* set of <<dimension, largest shell>>
Small == {<<1, 9>>, <<2, 3>>, <<3, 1>>}
Large == {<<1, 20>>, <<2, 5>>, <<3, 2>>, <<4, 1>>}
VARIABLES sc, comp, seen, last
vars == <<sc, comp, seen, last>>
All == {x \in Cube(sc[2], sc[1]) : Numbered(x, comp)}
Init == sc \in Scope /\ comp \in BOOLEAN /\ seen = {} /\ last = <<>>
Number(x) == /\ \A y \in All \ seen : y # x => Before(x, y)
             /\ seen' = seen \cup {x} /\ last' = x /\ UNCHANGED <<sc, comp>>
Next == \E x \in All \ seen : Number(x)
Spec == Init /\ [][Next]_vars
Formula == last # <<>> => Index(last, comp) = Cardinality(seen) - 1
InsideOut == last # <<>> => \A y \in seen : Shell(y) <= Shell(last)
\* an even cubic mesh (Nyquist counted positive) has the first numbers
Mesh(n) == {x \in All : \A d \in DOMAIN x : -n < 2 * x[d] /\ 2 * x[d] <= n}
MeshFirst == (last # <<>> /\ Cardinality(seen) = Cardinality(Mesh(2 * Shell(last)))) =>
             (Mesh(2 * Shell(last)) = seen \/ Cardinality(seen) = 1)
\* one mode always follows: the order is total
Total == seen # All => \E x \in All \ seen : \A y \in All \ seen : y # x => Before(x, y)

\* the digits used for far modes count the same
RECURSIVE Value(_, _)
Value(a, k) == IF k > Len(a) THEN 0 ELSE a[k] + Base * Value(a, k + 1)
ASSUME \A s \in {0, 1, 2, 7, 15, 16, 49, 50, 99, 100, 624} : \A d \in 0 .. 3 : \A c \in BOOLEAN :
         (d # 3 \/ s < 600) => Value(BigVolume(s, d, c), 1) = Volume(s, d, c)
ASSUME \A a, b \in {0, 1, 999, 1000, 1001, 123456, 999999, 1000000} :
         LET D(v) == Times(<<v % 1000, v \div 1000>>, 1, 1, 0) IN Less(D(a), D(b)) <=> a < b
=============================================================================
