------------------------------- MODULE Domain -------------------------------
(* Geometry of a gridded domain decomposition, in exact integer lattice units.*)
(*   edges   : sequence (per axis) of non-decreasing sequences of integers    *)
(*   cell    : tuple of cell numbers, 0-based; domain number is row-major     *)
(*   assign  : domain number + 1 -> owning rank (0-based)                     *)
(* A cell [e[j], e[j+1]) is half open; empty cells own no point.              *)
EXTENDS Integers, Sequences, FiniteSets

NCells(e) == Len(e) - 1
Period(e) == e[Len(e)]
Lo(e, j) == e[j + 1]
Hi(e, j) == e[j + 2]
NonEmpty(e, j) == Lo(e, j) < Hi(e, j)

Wrap(x, L) == x % L          \* TLA+ % is the mathematical modulus for L > 0

\* the closed interval [a, b] meets cell j of axis e
Meets(e, j, a, b) == /\ NonEmpty(e, j)
                     /\ a < Hi(e, j)
                     /\ b >= Lo(e, j)

\* cells of one axis touched by the smoothing interval around x
Touched(e, periodic, x, s) ==
  LET L == Period(e)
      n == NCells(e)
  IN IF periodic
     THEN LET c == Wrap(x, L)
              \* images that can matter
              K == (s \div L) + 1
          IN {j \in 0 .. n - 1 : \E m \in -K .. K : Meets(e, j, c - s + m * L, c + s + m * L)}
     ELSE {j \in 0 .. n - 1 : Meets(e, j, x - s, x + s)}

\* the cell of one axis that contains x (a set with at most one element)
Containing(e, periodic, x) == Touched(e, periodic, x, 0)

\* row-major number of a cell
RECURSIVE FlatN(_, _, _)
FlatN(edges, cell, d) ==
  IF d = 0 THEN 0 ELSE FlatN(edges, cell, d - 1) * NCells(edges[d]) + cell[d]
Flat(edges, cell) == FlatN(edges, cell, Len(edges))

\* all tuples with the d-th entry from sets[d]
RECURSIVE Prod(_, _)
Prod(sets, d) ==
  IF d = 0 THEN {<<>>}
  ELSE {Append(t, x) : t \in Prod(sets, d - 1), x \in sets[d]}

TouchedCells(edges, periodic, x, s) ==
  Prod([d \in DOMAIN edges |-> Touched(edges[d], periodic, x[d], s[d])], Len(edges))

TouchedDomains(edges, periodic, x, s) ==
  {Flat(edges, c) : c \in TouchedCells(edges, periodic, x, s)}

\* the ranks a particle at x with smoothing s must be delivered to
Targets(edges, periodic, assign, x, s) ==
  {assign[f + 1] : f \in TouchedDomains(edges, periodic, x, s)}

Zero(n) == [d \in 1 .. n |-> 0]

\* domain owning the point x ({} when x is outside a non-periodic grid)
DomainOf(edges, periodic, x) == TouchedDomains(edges, periodic, x, Zero(Len(edges)))
OwnerOf(edges, periodic, assign, x) == Targets(edges, periodic, assign, x, Zero(Len(edges)))

NDomains(edges) ==
  LET RECURSIVE P(_)
      P(d) == IF d = 0 THEN 1 ELSE P(d - 1) * NCells(edges[d])
  IN P(Len(edges))
\* the same for an axis of n equal cells of width h starting at 0, without listing its edges
UniTouched(n, h, periodic, x, s) ==
  LET lo == (x - s) \div h
      hi == (x + s) \div h
  IN IF periodic
     THEN LET c == Wrap(x, n * h)
              a == (c - s) \div h
              b == (c + s) \div h
          IN IF b - a >= n THEN 0 .. n - 1 ELSE {j % n : j \in a .. b}
     ELSE {j \in (IF lo < 0 THEN 0 ELSE lo) .. (IF hi > n - 1 THEN n - 1 ELSE hi) : TRUE}

\* owner of domain f when the owner map is given by runs <<first, last, rank>>
RunOwner(runs, f) == (CHOOSE k \in DOMAIN runs : runs[k][1] <= f /\ f <= runs[k][2])
UniFlat(n, cell) ==
  LET RECURSIVE F(_)
      F(d) == IF d = 0 THEN 0 ELSE F(d - 1) * n[d] + cell[d]
  IN F(Len(n))
UniDomains(n, h, periodic, x, s) ==
  {UniFlat(n, c) : c \in Prod([d \in DOMAIN n |-> UniTouched(n[d], h[d], periodic, x[d], s[d])], Len(n))}
UniTargets(n, h, periodic, runs, x, s) ==
  {runs[RunOwner(runs, f)][3] : f \in UniDomains(n, h, periodic, x, s)}

\* law: both descriptions of an equal grid agree (checked by UniMC)
UniAgrees(n, h, periodic, x, s) ==
  UniTouched(n, h, periodic, x, s) = Touched([j \in 1 .. n + 1 |-> (j - 1) * h], periodic, x, s)
=============================================================================
