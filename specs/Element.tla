------------------------------ MODULE Element -------------------------------
(* Reading and writing single elements of one global mesh of which only part   *)
(* may be stored (the compressed half of a Hermitian spectrum).                *)
(* A store is a function from cell numbers (row-major in the stored shape) to  *)
(* <<re, im>>.                                                                 *)
EXTENDS Mesh
Wrap(n, c) == [d \in DOMAIN c |-> IF c[d] < 0 THEN c[d] + n[d] ELSE c[d]]
InStore(s, c) == \A d \in DOMAIN c : c[d] < s[d]
Conj(z) == <<z[1], -z[2]>>
Upd(v, s, c, z) == IF InStore(s, c) THEN [v EXCEPT ![Flat(s, c)] = z] ELSE v
At(v, s, c) == v[Flat(s, c)]
\* writing y: the whole element (part -1), its real part (0), its imaginary part (1)
SetReal(v, n, s, idx, y) == Upd(v, s, Wrap(n, idx), y)
SetHerm(v, n, s, idx, part, y) ==
  LET c == Wrap(n, idx)
      m == Mirror(n, c)
      old(x) == IF InStore(s, x) THEN At(v, s, x) ELSE <<0, 0>>
      new(x) == CASE part = -1 -> IF c = m THEN <<y[1], 0>> ELSE IF x = c THEN y ELSE Conj(y)
                  [] part = 0 -> <<y[1], old(x)[2]>>
                  [] part = 1 -> <<old(x)[1], IF c = m THEN 0 ELSE IF x = c THEN y[1] ELSE -y[1]>>
  IN Upd(Upd(v, s, c, new(c)), s, m, new(m))
Part(z, part) == CASE part = -1 -> z [] part = 0 -> <<z[1], 0>> [] part = 1 -> <<z[2], 0>>
Get(v, n, s, idx, part) == Part(At(v, s, Wrap(n, idx)), part)
Hermitian(v, n, s) == \A f \in DOMAIN v : LET c == Coord(s, f) m == Mirror(n, c) IN
                         InStore(s, m) => At(v, s, m) = Conj(v[f])
=============================================================================
