--------------------------------- MODULE Lic ---------------------------------
(* Line integral convolution on a periodic mesh, in exact rational arithmetic. *)
(*   n      : sides of the mesh          p : order of the reading window (0, 1)*)
(*   v[d][k]: component d of the vector of cell k (row-major, 1-based), integer*)
(*   tex[k] : texture                    z : the lattice of positions is 1/z   *)
(*   h[d]   : half a step of a unit vector along d, in units of 1/z cell       *)
(*   J      : steps in each direction    ker(s, j): weight of step j, sign s   *)
(* The image is tex[k] + (e / E) * (sum over both directions and all steps of  *)
(* the weight times the texture at the middle of the step), where a step moves *)
(* along the vector read at its start.                                         *)
EXTENDS Window, TLC
RECURSIVE Vol(_, _)
Vol(n, d) == IF d = 0 THEN 1 ELSE Vol(n, d - 1) * n[d]
RECURSIVE Coo(_, _, _)
Coo(n, d, k) == IF d = 0 THEN <<>> ELSE Append(Coo(n, d - 1, k \div n[d]), k % n[d])
RECURSIVE Pow(_, _)
Pow(x, e) == IF e = 0 THEN 1 ELSE x * Pow(x, e - 1)
\* denominators of a reading on the lattice 1/z
DenR(n, p, z) == IF p = 0 THEN 1 ELSE Pow(z, Len(n))
\* cells of one axis that a position g / z reads, with their weights (times Den0)
AxisRead(p, z, g, n) ==
  IF p = 0 THEN <<<<Floor(2 * g + z, 2 * z) % n, 1>>>>
  ELSE LET c == Floor(g, z) f == g - c * z IN IF f = 0 THEN <<<<c % n, z>>>> ELSE <<<<c % n, z - f>>, <<(c + 1) % n, f>>>>
\* the field F (of integers) at x, times DenR
ReadAt(n, p, z, F, x) ==
  LET nd == Len(n)
      RECURSIVE R(_, _)
      R(d, flat) == IF d > nd THEN F[flat + 1]
                    ELSE LET a == AxisRead(p, z, x[d], n[d]) IN
                         IF Len(a) = 1 THEN a[1][2] * R(d + 1, flat * n[d] + a[1][1])
                         ELSE a[1][2] * R(d + 1, flat * n[d] + a[1][1]) + a[2][2] * R(d + 1, flat * n[d] + a[2][1])
  IN R(1, 0)
\* the sum over the steps j .. J-1 of one direction, times DenR at the lattice of the
\* last step, which the recursion returns along: <<sum, denominator>>
RECURSIVE Line(_, _, _, _, _, _, _, _, _, _, _)
Line(n, p, z, v, tex, h, J, ker(_, _), s, j, x) ==
  IF j = J THEN <<0, 1>>
  ELSE LET nd == Len(n)
           r == DenR(n, p, z)
           u == TLCEval([d \in 1 .. nd |-> s * ReadAt(n, p, z, v[d], x) * h[d]])     \* half a step, in units of 1/(z r)
           mid == TLCEval([d \in 1 .. nd |-> x[d] * r + u[d]])
           end == TLCEval([d \in 1 .. nd |-> x[d] * r + 2 * u[d]])
           hh == TLCEval([d \in 1 .. nd |-> h[d] * r])
           t == ReadAt(n, p, z * r, tex, mid) * ker(s, j)
           rest == Line(n, p, z * r, v, tex, hh, J, ker, s, j + 1, end)
           den == DenR(n, p, z * r)
           big == IF rest[2] > den THEN rest[2] ELSE den
       IN <<t * (big \div den) + rest[1] * (big \div rest[2]), big>>
\* <<image at cell k times E * denominator, denominator>>
Pixel(n, p, z, v, tex, h, J, ker(_, _), e, E, k) ==
  LET x == [d \in 1 .. Len(n) |-> Coo(n, Len(n), k)[d] * z]
      a == Line(n, p, z, v, tex, h, J, ker, 1, 0, x)
      b == Line(n, p, z, v, tex, h, J, ker, -1, 0, x)
      big == IF a[2] > b[2] THEN a[2] ELSE b[2]
  IN <<tex[k + 1] * E * big + e * (a[1] * (big \div a[2]) + b[1] * (big \div b[2])), big>>
\* unit vectors of vectors along one axis; the zero vector stays
Unit(v) == [d \in DOMAIN v |-> [k \in DOMAIN v[d] |-> Sgn(v[d][k]) * (IF v[d][k] = 0 THEN 0 ELSE 1)]]
Axial(v) == \A k \in DOMAIN v[1] : \A d, dd \in DOMAIN v : d = dd \/ v[d][k] = 0 \/ v[dd][k] = 0
=============================================================================
