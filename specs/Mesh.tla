-------------------------------- MODULE Mesh --------------------------------
(* A global mesh dealt out in blocks to ranks.                                 *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE ProdTo(_, _)
ProdTo(s, d) == IF d = 0 THEN 1 ELSE ProdTo(s, d - 1) * s[d]
Vol(s) == ProdTo(s, Len(s))
RECURSIVE CoordTo(_, _, _)
\* the row-major cell number f (from 0) as a coordinate of a mesh of shape s
CoordTo(s, d, f) == IF d = 0 THEN <<>> ELSE Append(CoordTo(s, d - 1, f \div s[d]), f % s[d])
Coord(s, f) == CoordTo(s, Len(s), f)
RECURSIVE FlatTo(_, _, _)
FlatTo(s, c, d) == IF d = 0 THEN 0 ELSE FlatTo(s, c, d - 1) * s[d] + c[d]
Flat(s, c) == FlatTo(s, c, Len(s))
\* block b = [start, shape] holds cell c
Holds(b, c) == \A d \in DOMAIN c : b.start[d] <= c[d] /\ c[d] < b.start[d] + b.shape[d]
Owners(bs, c) == {k \in DOMAIN bs : Holds(bs[k], c)}
\* every cell of the global shape has exactly one owner, and no block reaches outside
Tiles(bs, s) ==
  /\ \A f \in 0 .. Vol(s) - 1 : Cardinality(Owners(bs, Coord(s, f))) = 1
  /\ \A k \in DOMAIN bs : Vol(bs[k].shape) > 0 =>
        \A d \in DOMAIN s : bs[k].start[d] >= 0 /\ bs[k].start[d] + bs[k].shape[d] <= s[d]
\* the shape of the stored spectrum
Stored(n, half) == [d \in DOMAIN n |-> IF half /\ d = Len(n) THEN n[d] \div 2 + 1 ELSE n[d]]
\* the signed coordinate of index i on n cells: non-negative below the Nyquist index, negative from it on
Signed(n, i) == IF 2 * i < n THEN i ELSE i - n
\* mirror image of a mode
Mirror(n, c) == [d \in DOMAIN n |-> (n[d] - c[d]) % n[d]]
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == IF (a >= 0) = (b >= 0) THEN Abs(a - b) <= tol ELSE Abs(a) <= tol /\ Abs(b) <= tol /\ Abs(a) + Abs(b) <= tol
Range(s) == {s[k] : k \in DOMAIN s}
=============================================================================
