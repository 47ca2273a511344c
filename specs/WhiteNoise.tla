----------------------------- MODULE WhiteNoise -----------------------------
(* Gadget-compatible white noise: which random number every mode of a mesh is  *)
(* made of.                                                                    *)
(*                                                                             *)
(* A mesh of size n = <<n1, n2, n3>> has the modes 0..n1-1 x 0..n2-1 x 0..n3-1,*)
(* mode m standing for the wavenumber Signed(m).  A spiral from the origin of  *)
(* the first two axes outwards gives every column (k1, k2) one number, its     *)
(* place in the spiral; the column's number seeds its own stream of random     *)
(* numbers, whose element |k3| makes the mode.  Only half of the modes are     *)
(* drawn: the rest are conjugates, which makes the mesh Hermitian.             *)
EXTENDS Integers, Sequences, FiniteSets

Neg(n, m) == [d \in DOMAIN n |-> (n[d] - m[d]) % n[d]]
Modes(n) == {m \in (0 .. n[1] - 1) \X (0 .. n[2] - 1) \X (0 .. n[3] - 1) : TRUE}
Signed1(N, i) == IF 2 * i >= N THEN i - N ELSE i
Signed(n, m) == [d \in DOMAIN n |-> Signed1(n[d], m[d])]

\* ---- the spiral: column (a, b), signed, is visited in ring max(~a, ~b) ----
\* one ring visits, with j counting upwards, the eight runs
\*   (r,j<r) (j<=r,r) (-1-r,j<r) (-1-j<=r,r) (r,-1-j<r) (j<=r,-1-r) (-1-r,-1-j<r) (-1-j<=r,-1-r)
Fold(a) == IF a < 0 THEN -1 - a ELSE a
Ring(a, b) == IF Fold(a) > Fold(b) THEN Fold(a) ELSE Fold(b)
\* numbers used up before ring r: 4 (2q + 1) for every q < r
Before(r) == 4 * r * r
Run(a, b) ==
  LET r == Ring(a, b)
      long == Fold(b) = r            \* the runs that include the corner
      s == (IF a < 0 THEN 1 ELSE 0) + (IF b < 0 THEN 2 ELSE 0)
  IN 2 * s + (IF long THEN 1 ELSE 0)
\* runs alternate in length r, r+1
RunStart(r, run) == (run \div 2) * (2 * r + 1) + (IF run % 2 = 1 THEN r ELSE 0)
SpiralNo(a, b) ==
  LET r == Ring(a, b) IN
  Before(r) + RunStart(r, Run(a, b)) + (IF Fold(b) = r THEN Fold(a) ELSE Fold(b))

\* ---- the design: what each mode is drawn from ----
Column(n, m) == SpiralNo(Signed1(n[1], m[1]), Signed1(n[2], m[2]))
\* the plane k3 = 0, and the Nyquist plane, hold both of a conjugate pair
OnPlane(n, m) == m[3] = 0 \/ 2 * m[3] = n[3]
\* of a pair, the mode that is drawn; the other one is its conjugate
Lower(n, m) ==
  LET c == Neg(n, m) IN
  IF OnPlane(n, m) THEN c[1] > m[1] \/ (c[1] = m[1] /\ c[2] >= m[2])
  ELSE 2 * m[3] < n[3]
SelfConj(n, m) == Neg(n, m) = m
Source(n, m) == LET d == IF Lower(n, m) THEN m ELSE Neg(n, m)
                IN [column |-> Column(n, d), step |-> d[3], conj |-> ~Lower(n, m)]
\* strictly inside the Nyquist limit
Inside(n, m) == \A d \in DOMAIN n : LET k == Signed1(n[d], m[d]) IN 2 * (IF k < 0 THEN -k ELSE k) < n[d]
\* the mode of mesh n with wavenumber k
ModeOf(n, k) == [d \in DOMAIN n |-> k[d] % n[d]]
=============================================================================
