----------------------------- MODULE FourierMC -----------------------------
(* The specification of the transform is a transform: the phases are those of  *)
(* the definition, it is orthogonal, Hermitian for real fields, forth and back *)
(* is the identity times the number of cells, and the compressed form loses    *)
(* nothing.                                                                    *)
EXTENDS Fourier, TLC
CONSTANTS MaxCells, MaxDim
VARIABLES n, a
Shapes == {s \in UNION {[1 .. d -> {1, 2, 3, 4, 6, 12}] : d \in 1 .. MaxDim} : Vol(s) <= MaxCells}
Init == n \in Shapes /\ a \in 0 .. Vol(n) - 1
Next == UNCHANGED <<n, a>>
Delta(m, f) == [k \in 1 .. Vol(m) |-> IF k = f + 1 THEN 1 ELSE 0]
Zero(m) == [k \in 1 .. Vol(m) |-> 0]
One(m) == [k \in 1 .. Vol(m) |-> 1]
RECURSIVE PhaseTo(_, _, _, _)
PhaseTo(m, k, x, d) == IF d = 0 THEN 0 ELSE PhaseTo(m, k, x, d - 1) + ((k[d] * x[d]) % m[d]) * (12 \div m[d])
\* a spike transforms into the plane wave of the definition
Definition ==
  LET F == Transform(n, Delta(n, a), Zero(n), -1)
      G == Transform(n, Zero(n), Delta(n, a), 1)
  IN \A k \in 0 .. Vol(n) - 1 :
       LET p == PhaseTo(n, Coord(n, k), Coord(n, a), Len(n))
       IN F[k] = Rot(<<1, 0, 0, 0>>, (-p) % 12) /\ G[k] = Rot(<<0, 0, 0, 1>>, p % 12)
          /\ F[Flat(n, Mirror(n, Coord(n, k)))] = Conj(F[k])
Orthogonal ==
  LET F == Transform(n, One(n), Zero(n), 1)
      v == Vol(n)
      D == Transform(n, Delta(n, a), Zero(n), -1)
      B == StagesTo(n, D, Len(n), 1)
  IN /\ F[a] = IF a = 0 THEN <<v, 0, 0, 0>> ELSE <<0, 0, 0, 0>>
     /\ \A f \in 0 .. v - 1 : B[f] = IF f = a THEN <<v, 0, 0, 0>> ELSE <<0, 0, 0, 0>>
\* the half spectrum of a Hermitian one unfolds to it
Folding ==
  LET mir(f) == Flat(n, Mirror(n, Coord(n, f - 1)))
      re == [f \in 1 .. Vol(n) |-> (f - 1) + mir(f)]
      im == [f \in 1 .. Vol(n) |-> (f - 1) - mir(f)]
      s == Stored(n, TRUE)
      cut == [f \in 1 .. Vol(s) |-> Flat(n, Coord(s, f - 1)) + 1]
      u == Unfold(n, TRUE, [f \in 1 .. Vol(s) |-> re[cut[f]]], [f \in 1 .. Vol(s) |-> im[cut[f]]])
  IN a = 0 => u.re = re /\ u.im = im
\* multiplication by z twelve times is the identity, and Conj inverts phases
Ring == a = 0 => \A p \in 0 .. 11 : LET q == <<3, -1, 4, 7>> IN
          Rot(Rot(q, p), (12 - p) % 12) = q /\ Conj(Rot(q, p)) = Rot(Conj(q), (12 - p) % 12) /\ Rot(q, p) = IF p = 0 THEN q ELSE Rot(Rot(q, p - 1), 1)
=============================================================================
