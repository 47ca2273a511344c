------------------------------- MODULE Views -------------------------------
(* Global views of a mesh dealt out in blocks [start, shape, v]; v lists the   *)
(* values of the block in row-major order.                                     *)
EXTENDS Mesh
Local(b, c) == b.v[Flat(b.shape, [d \in DOMAIN c |-> c[d] - b.start[d]]) + 1]
At(bs, c) == Local(bs[CHOOSE k \in DOMAIN bs : Holds(bs[k], c)], c)
\* the whole mesh in row-major order
Whole(bs, s) == [f \in 1 .. Vol(s) |-> At(bs, Coord(s, f - 1))]
\* the blocks that hold the given whole mesh
Deal(bs, s, w) == [k \in DOMAIN bs |->
   [start |-> bs[k].start, shape |-> bs[k].shape,
    v |-> [f \in 1 .. Vol(bs[k].shape) |->
             LET l == Coord(bs[k].shape, f - 1) IN w[Flat(s, [d \in DOMAIN s |-> bs[k].start[d] + l[d]]) + 1]]]]
\* what every rank's part of the row-major sequence is
Parts(bs, s) == LET w == Whole(bs, s)
                    before[k \in 0 .. Len(bs)] == IF k = 0 THEN 0 ELSE before[k - 1] + Vol(bs[k].shape)
                IN [k \in DOMAIN bs |-> SubSeq(w, before[k - 1] + 1, before[k])]
\* the mesh summed over the axes not kept; ax lists the kept axes (from 1) in the order wanted
RECURSIVE SumTo(_, _, _)
SumTo(w, F, acc) == IF F = {} THEN acc ELSE LET f == CHOOSE f \in F : TRUE IN SumTo(w, F \ {f}, acc + w[f + 1])
Kept(s, ax) == [d \in DOMAIN ax |-> s[ax[d]]]
Project(w, s, ax) ==
  [g \in 1 .. Vol(Kept(s, ax)) |->
     LET c == Coord(Kept(s, ax), g - 1) IN
     SumTo(w, {f \in 0 .. Vol(s) - 1 : \A d \in DOMAIN ax : Coord(s, f)[ax[d]] = c[d]}, 0)]
\* the element at (i, j, ..) goes to the index permuted by ax
Turn(w, s, ax) == LET t == Kept(s, ax)
                      back == [d \in DOMAIN ax |-> CHOOSE k \in DOMAIN ax : ax[k] = d]
                  IN [g \in 1 .. Vol(t) |-> w[Flat(s, LET c == Coord(t, g - 1) IN [d \in DOMAIN s |-> c[back[d]]]) + 1]]
=============================================================================
