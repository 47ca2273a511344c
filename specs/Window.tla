------------------------------- MODULE Window -------------------------------
(* The particle-mesh window in exact rational arithmetic.                      *)
(*   p      : order of the spline (0 nearest, 1 linear, 2 quadratic, 3 cubic)  *)
(*   Q      : grid positions are integers in units of 1/Q cell                 *)
(*   P      : twice the (possibly fractional) support of this particle         *)
(* A weight is an integer numerator over an explicit denominator.              *)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE 1
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Floor(a, b) == a \div b            \* TLC's \div rounds towards minus infinity for b > 0

\* the spline at x = a / B, times Den0(p, B)
Den0(p, B) == CASE p = 0 -> 1 [] p = 1 -> B [] p = 2 -> 8 * B * B [] p = 3 -> 6 * B * B * B
K0(p, a, B) ==
  LET z == Abs(a)
  IN CASE p = 0 -> IF -B <= 2 * a /\ 2 * a < B THEN 1 ELSE 0
       [] p = 1 -> IF z < B THEN B - z ELSE 0
       [] p = 2 -> IF 2 * z <= B THEN 6 * B * B - 8 * a * a
                   ELSE IF 2 * z < 3 * B THEN (3 * B - 2 * z) * (3 * B - 2 * z) ELSE 0
       [] p = 3 -> IF z < B THEN 4 * B * B * B - 6 * a * a * B + 3 * z * z * z
                   ELSE IF z < 2 * B THEN (2 * B - z) * (2 * B - z) * (2 * B - z) ELSE 0
\* its derivative, times Den1(p, B); kinks (p <= 1) are excluded by the caller
Den1(p, B) == CASE p <= 1 -> 1 [] p = 2 -> 2 * B [] p = 3 -> 2 * B * B
K1(p, a, B) ==
  LET z == Abs(a)
  IN CASE p = 0 -> 0
       [] p = 1 -> IF z < B THEN -Sgn(a) ELSE 0
       [] p = 2 -> IF 2 * z <= B THEN -4 * a
                   ELSE IF 2 * z < 3 * B THEN -Sgn(a) * (3 * B - 2 * z) ELSE 0
       [] p = 3 -> IF z < B THEN Sgn(a) * (3 * z * z - 4 * z * B)
                   ELSE IF z < 2 * B THEN -Sgn(a) * (2 * B - z) * (2 * B - z) ELSE 0

\* the window of a particle at g/Q on cell c, stretched to support P/2; value or
\* derivative (diff), the latter per unit of the caller's coordinates, which are
\* sn/4 cells long.  <<numerator, denominator>>
Weight(p, Q, P, diff, sn, g, c) ==
  LET n2 == 2 * (p + 1)
      f == Gcd(n2, P)
      u == n2 \div f              \* stretch factor n / support = u / v
      v == P \div f
      a == (g - c * Q) * u
      B == Q * v
  IN IF diff THEN <<K1(p, a, B) * sn * u * u, Den1(p, B) * 4 * v * v>>
     ELSE <<K0(p, a, B) * u, Den0(p, B) * v>>

\* cells that the window can touch
Reach(Q, P, g) == (Floor(g, Q) - (P \div 4) - 2) .. (Floor(g, Q) + (P \div 4) + 2)

\* fold cell c by the period (0: none); local cells are 0 .. size-1
Fold(c, period) == IF period > 0 THEN c % period ELSE c

RECURSIVE SumW(_, _, _)
\* sum over a set S of integers of f[x], f a function on a superset
SumW(S, f, acc) == IF S = {} THEN acc ELSE LET x == CHOOSE x \in S : TRUE IN SumW(S \ {x}, f, acc + f[x])

\* weights of one axis as integers over the common denominator D
AxisRow(p, Q, P, diff, sn, g, size, period, D) ==
  LET R == Reach(Q, P, g)
      w == [c \in R |-> LET q == Weight(p, Q, P, diff, sn, g, c) IN q[1] * (D \div q[2])]
  IN [t \in 0 .. size - 1 |-> SumW({c \in R : Fold(c, period) = t}, w, 0)]
\* cubic convolution (Keys, a = -1/2) of the older windowed painter: numerators over 2 Q^3
CubicConv(Q, x) ==
  LET a == Abs(x)
  IN IF a <= Q THEN 3 * a * a * a - 5 * a * a * Q + 2 * Q * Q * Q
     ELSE IF a <= 2 * Q THEN 5 * a * a * Q - a * a * a - 8 * a * Q * Q + 4 * Q * Q * Q ELSE 0
ConvRow(Q, g, size, period) ==
  LET c0 == Floor(g, Q)
      R == (c0 - 1) .. (c0 + 2)
      w == [c \in R |-> CubicConv(Q, g - c * Q)]
  IN [t \in 0 .. size - 1 |-> SumW({c \in R : Fold(c, period) = t}, w, 0)]
DividesAxis(p, Q, P, diff, D) == D % (Weight(p, Q, P, diff, 4, 0, 0)[2]) = 0
=============================================================================
