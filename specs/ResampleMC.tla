---------------------------- MODULE ResampleMC ------------------------------
(* Design of the resampling: for every pair of meshes and a spectrum of a real *)
(* field it keeps the mean and Hermitian symmetry, looks only at modes that    *)
(* the per-axis index table of the source offers, and going to a larger mesh   *)
(* and back loses only the Nyquist modes.                                      *)
EXTENDS Resample
CONSTANTS NMAX, ND
VARIABLES n, m, go
Init == n \in [1 .. ND -> 1 .. NMAX] /\ m \in [1 .. ND -> 1 .. NMAX] /\ go = FALSE
\* (the laws are looked at in the second state, where the workers share them)
Next == go' = TRUE /\ UNCHANGED <<n, m>>
\* a spectrum with distinct values: f and its mirror are conjugate <<a, b>>, <<a, -b>>
Spec0(s) == TLCEval([f \in 0 .. Vol(s) - 1 |->
   LET g == Flat(s, Mirror(s, Coord(s, f))) IN
   IF f = g THEN <<100 + f, 0>> ELSE IF f < g THEN <<100 + f, 1 + f>> ELSE <<100 + g, -1 - g>>])
Z == <<0, 0>>
Count(a, b) == Cardinality({k \in -a .. a : 2 * Abs(k) < a /\ 2 * Abs(k) < b})
RECURSIVE CountTo(_)
CountTo(d) == IF d = 0 THEN 1 ELSE CountTo(d - 1) * Count(n[d], m[d])
Laws == go =>
  LET A == Spec0(n)
      P == Pick(n, m, A, Z)
      Modes == {f \in 0 .. Vol(m) - 1 : P[f] # Z}
  IN \* mean
     /\ P[0] = A[0]
     \* Hermitian
     /\ \A f \in 0 .. Vol(m) - 1 : LET g == P[Flat(m, Mirror(m, Coord(m, f)))] IN P[f] = <<g[1], -g[2]>>
     \* every mode inside both arrives once
     /\ Cardinality(Modes) = CountTo(ND) /\ Cardinality({P[f] : f \in Modes}) = Cardinality(Modes)
     \* up and back
     /\ (\A d \in 1 .. ND : m[d] >= n[d]) => Pick(m, n, P, Z) = Pick(n, n, A, Z)
     /\ Pick(m, m, P, Z) = P
=============================================================================
