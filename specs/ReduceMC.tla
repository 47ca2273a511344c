------------------------------ MODULE ReduceMC ------------------------------
(* Summing a half-stored mesh with the weights is summing the full mesh; the   *)
(* independent real numbers of a spectrum are as many as those of the field.   *)
EXTENDS Reduce
CONSTANTS NMAX, ND
VARIABLES n, go
Init == n \in [1 .. ND -> 1 .. NMAX] /\ go = FALSE
Next == go' = TRUE /\ UNCHANGED n
Laws == go =>
  LET s == Stored(n, TRUE)
      val(c) == LET f == Flat(n, c) g == Flat(n, Mirror(n, c)) IN f * f + g * g + 3 * (f + g)
      full(f) == val(Coord(n, f))
      half(f) == Weight(n, TRUE, Coord(s, f)) * val(Coord(s, f))
      q == [d \in DOMAIN n |-> d]
  IN /\ SumUp(full, Vol(n) - 1) = SumUp(half, Vol(s) - 1)
     \* the wavenumber is that of the mirror image
     /\ \A f \in 0 .. Vol(n) - 1 : K2(n, q, Coord(n, f)) = K2(n, q, Mirror(n, Coord(n, f)))
     \* degrees of freedom: self-conjugate modes have one, the others two per pair
     /\ LET S == {f \in 0 .. Vol(n) - 1 : SelfConjugate(n, Coord(n, f))}
        IN Cardinality(S) + 2 * ((Vol(n) - Cardinality(S)) \div 2) = Vol(n) /\ (Vol(n) - Cardinality(S)) % 2 = 0
     /\ \A f \in 0 .. Vol(s) - 1 : SelfConjugate(n, Coord(s, f)) => Weight(n, TRUE, Coord(s, f)) = 1
=============================================================================
