------------------------------- MODULE Legacy -------------------------------
(* The older Fourier-space interface: the signed coordinates of the mesh and   *)
(* the factor by which each transfer function multiplies the mode of every     *)
(* wavenumber; averages over shells of wavenumbers.                            *)
EXTENDS Fourier
\* coordinate of index i on a side of n points: -n/2 .. n/2 (both ends allowed for the middle)
Signs(n, i) == IF 2 * i < n THEN {i} ELSE IF 2 * i = n THEN {i, -i} ELSE {i - n}
Sig(n, i) == Signed(n, i)
\* squared wavenumber of the stored mode at flat index f, in units of (2 pi / n)^2
K2At(n, s, f) == LET c == Coord(s, f) IN Sig(n, c[1]) * Sig(n, c[1]) + Sig(n, c[2]) * Sig(n, c[2]) + Sig(n, c[3]) * Sig(n, c[3])
\* 16384 sin(2 pi j / 12)
Sin12 == <<0, 8192, 14189, 16384, 14189, 8192, 0, -8192, -14189, -16384, -14189, -8192>>
SinT(n, i) == Sin12[((i * (12 \div n)) % 12) + 1]
\* 10000 (w/2)^2 / sin^2(w/2) at w = 2 pi j / 12, j = 0 .. 6
Tri12 == <<10000, 10232, 10966, 12337, 14622, 18365, 24674>>
TriT(n, i) == Tri12[Abs(Sig(n, i)) * (12 \div n) + 1]
\* 8 sin w - sin 2w, in units of 1/16384
SL(n, i) == 8 * SinT(n, i) - SinT(n, 2 * i)
RECURSIVE Half(_, _)
\* a halved e times, rounded towards minus infinity
Half(a, e) == IF e = 0 \/ a = 0 \/ a = -1 THEN a ELSE Half(a \div 2, e - 1)
\* 1000 sqrt m
Root == TLCEval([m \in 0 .. 60 |-> CHOOSE x \in 0 .. 8000 : x * x <= m * 1000000 /\ (x + 1) * (x + 1) > m * 1000000])
\* twice the weight of a stored mode in averages over all modes of a real field
Twice(f, s) == IF Coord(s, f)[3] = 0 THEN 1 ELSE 2
\* shell of a mode: nb equal intervals of |w| from 0 to pi; nb: beyond
Shell(n, nb, m) == IF 4 * m >= n * n THEN nb ELSE CHOOSE b \in 0 .. nb - 1 : b * b * n * n <= 4 * m * nb * nb /\ 4 * m * nb * nb < (b + 1) * (b + 1) * n * n
\* no mode lies on a boundary between shells
Clear(n, nb) == \A m \in 1 .. (n * n) \div 4 : 4 * m < n * n => \A b \in 1 .. nb : 4 * m * nb * nb # b * b * n * n
RECURSIVE Sum3(_, _)
Sum3(f(_), k) == IF k < 0 THEN 0 ELSE f(k) + Sum3(f, k - 1)
=============================================================================
