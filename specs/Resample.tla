------------------------------ MODULE Resample ------------------------------
(* Fourier resampling from a mesh of n to a mesh of m cells: the modes inside  *)
(* the Nyquist limits of both are copied, all others are zero.                 *)
EXTENDS Fourier
Signed1(n, c) == [d \in DOMAIN n |-> IF 2 * c[d] <= n[d] THEN c[d] ELSE c[d] - n[d]]
Inside(n, k) == \A d \in DOMAIN n : 2 * Abs(k[d]) < n[d]
\* A: the full spectrum on n, indexed from 0; z: the zero
Pick(n, m, A, z) ==
  TLCEval([f \in 0 .. Vol(m) - 1 |->
     LET k == Signed1(m, Coord(m, f)) IN
     IF Inside(n, k) /\ Inside(m, k) THEN A[Flat(n, [d \in DOMAIN n |-> k[d] % n[d]])] ELSE z])
=============================================================================
