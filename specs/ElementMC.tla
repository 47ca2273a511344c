----------------------------- MODULE ElementMC ------------------------------
(* Any sequence of element writes keeps the stored spectrum Hermitian, and a   *)
(* write is read back, for every small mesh, stored whole or in half.          *)
EXTENDS Element, TLC
CONSTANTS NMAX, VALS, MAXSET
VARIABLES n, half, v
vars == <<n, half, v>>
S == Stored(n, half)
Init == /\ n \in (1 .. NMAX) \X (1 .. NMAX) /\ half \in BOOLEAN
        /\ v = [f \in 0 .. Vol(S) - 1 |-> <<0, 0>>]
Index == {<<a, b>> : a \in -n[1] .. n[1] - 1, b \in -n[2] .. n[2] - 1}
\* an element is read back as written unless it must be real; nothing but it and its mirror image changed
ReadBack(w, idx, part, y) ==
  LET c == Wrap(n, idx)
      m == Mirror(n, c)
  IN /\ (InStore(S, c) /\ c # m) => Get(w, n, S, idx, part) = (IF part = -1 THEN y ELSE <<y[1], 0>>)
     /\ \A f \in DOMAIN v : Coord(S, f) \notin {c, m} => w[f] = v[f]
Write(idx, part, y) == LET w == SetHerm(v, n, S, idx, part, y) IN
                       /\ Assert(ReadBack(w, idx, part, y), <<"read back", idx, part, y>>)
                       /\ v' = w /\ UNCHANGED <<n, half>>
Next == \E idx \in Index, part \in {-1, 0, 1}, y \in VALS : Write(idx, part, y)
Herm == Hermitian(v, n, S)
Vals == {<<1, 2>>, <<3, 0>>}
Limit == Cardinality({f \in DOMAIN v : v[f] # <<0, 0>>}) <= MAXSET
=============================================================================
