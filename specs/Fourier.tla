------------------------------ MODULE Fourier ------------------------------
(* The discrete Fourier transform on meshes whose sides divide 12, exactly, in *)
(* the integers extended by z = exp(2 pi i / 12):  <<a, b, c, d>> stands for   *)
(* a + b z + c z^2 + d z^3  (z^4 = z^2 - 1).                                   *)
EXTENDS Mesh, TLC
\* multiplication by z^p, 0 <= p < 12
Rot(q, p) ==
  LET a == q[1] b == q[2] c == q[3] d == q[4] IN
  CASE p = 0 -> q
    [] p = 1 -> <<-d, a, b + d, c>>
    [] p = 2 -> <<-c, -d, a + c, b + d>>
    [] p = 3 -> <<-b - d, -c, b, a + c>>
    [] p = 4 -> <<-a - c, -b - d, a, b>>
    [] p = 5 -> <<-b, -a - c, -d, a>>
    [] p = 6 -> <<-a, -b, -c, -d>>
    [] p = 7 -> <<d, -a, -b - d, -c>>
    [] p = 8 -> <<c, d, -a - c, -b - d>>
    [] p = 9 -> <<b + d, c, -b, -a - c>>
    [] p = 10 -> <<a + c, b + d, -a, -b>>
    [] p = 11 -> <<b, a + c, d, -a>>
Add(q, r) == <<q[1] + r[1], q[2] + r[2], q[3] + r[3], q[4] + r[4]>>
\* twice the value: real part 2a + c + b sqrt 3, imaginary part b + 2d + c sqrt 3
TwoRe(q) == <<2 * q[1] + q[3], q[2]>>
TwoIm(q) == <<q[2] + 2 * q[4], q[3]>>
Conj(q) == <<q[1] + q[3], q[2], -q[3], -q[2] - q[4]>>
Fits(n) == \A d \in DOMAIN n : 12 % n[d] = 0
\* one axis after the other
Stage(n, A, d, sign) ==
  LET s == Vol(SubSeq(n, d + 1, Len(n)))
      m == n[d]
      u == 12 \div m
      at(f) == LET k == (f \div s) % m
                   b == f - k * s
                   RECURSIVE S(_, _)
                   S(x, acc) == IF x = m THEN acc ELSE S(x + 1, Add(acc, Rot(A[b + x * s], (sign * k * x * u) % 12)))
               IN S(0, <<0, 0, 0, 0>>)
  IN TLCEval([f \in 0 .. Vol(n) - 1 |-> at(f)])
RECURSIVE StagesTo(_, _, _, _)
StagesTo(n, A, d, sign) == IF d = 0 THEN A ELSE LET B == StagesTo(n, A, d - 1, sign) IN Stage(n, B, d, sign)
\* sums over all cells (sign -1: of the field, giving cells times the coefficients;
\* sign +1: of the full spectrum, giving the field)
Transform(n, re, im, sign) == StagesTo(n, TLCEval([f \in 0 .. Vol(n) - 1 |-> <<re[f + 1], 0, 0, im[f + 1]>>]), Len(n), sign)
\* the full spectrum of a stored one (half: the last axis is cut in the middle)
Unfold(n, half, re, im) ==
  LET s == Stored(n, half)
      at(f) == LET c == Coord(n, f) IN
               IF ~half \/ c[Len(n)] < s[Len(n)] THEN <<re[Flat(s, c) + 1], im[Flat(s, c) + 1]>>
               ELSE LET m == Flat(s, Mirror(n, c)) + 1 IN <<re[m], -im[m]>>
      all == TLCEval([f \in 0 .. Vol(n) - 1 |-> at(f)])
  IN [re |-> [f \in 1 .. Vol(n) |-> all[f - 1][1]], im |-> [f \in 1 .. Vol(n) |-> all[f - 1][2]]]
\* a + b sqrt 3 in units of 1/16384; good to b * 0.08
Unit == 16384
R3(p) == p[1] * Unit + p[2] * 28378
CloseTo(p, v, tol) == Near(v, R3(p), tol + 1 + Abs(p[2]) \div 12)
Close(q, re, im, tol) == CloseTo(TwoRe(q), re, tol) /\ CloseTo(TwoIm(q), im, tol)
=============================================================================
