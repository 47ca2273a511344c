----------------------------- MODULE MeshTrace ------------------------------
(* Recorded mesh objects: blocks, coordinates, point lists, particle routing.  *)
EXTENDS Mesh, TraceIO, FiniteSetsExt
VARIABLE i
Floor(a, b) == a \div b

Blocks(r, t) == [k \in DOMAIN r.rk |-> r.rk[k][t]]
Idx(b) == \A d \in DOMAIN b.shape : b.idx[d] = [x \in 1 .. b.shape[d] |-> b.start[d] + x - 1]
RealX(r, b) == \A d \in DOMAIN b.shape : Len(b.x[d]) = b.shape[d] /\
      \A x \in 1 .. b.shape[d] : b.x[d][x] = Signed(r.n[d], b.start[d] + x - 1) * r.cell[d]
FourX(r, b) == \A d \in DOMAIN b.shape : Len(b.x[d]) = b.shape[d] /\
      \A x \in 1 .. b.shape[d] : Near(b.x[d][x], 1024 * Signed(r.n[d], b.start[d] + x - 1), r.tol)
Nonempty(r) == {k \in DOMAIN r.rk : Vol(r.rk[k].r.shape) > 0}
\* cells of the block of rank k
Cells(r, k) == {f \in 0 .. Vol(r.n) - 1 : Holds(r.rk[k].r, Coord(r.n, f))}
PointsOK(r, k) ==
  LET v == r.rk[k] IN
  /\ Len(v.points) = Vol(v.r.shape) /\ Len(v.grid) = Len(v.points) /\ Len(v.ids) = Len(v.points)
  /\ {Flat(r.n, v.points[q]) : q \in DOMAIN v.points} = Cells(r, k)
  /\ \A q \in DOMAIN v.points : \A d \in DOMAIN r.n : 0 <= v.points[q][d] /\ v.points[q][d] < r.n[d]
GridOK(r, k) ==
  LET v == r.rk[k] IN
  /\ {v.ids[q] : q \in DOMAIN v.ids} = Cells(r, k)
  /\ Len(v.grid) = Len(v.ids)
  \* the position of the particle called id, in 1/16 of a length unit (cells are cell/4 long)
  /\ \A q \in DOMAIN v.ids : LET c == Coord(r.n, v.ids[q]) IN
        \A d \in DOMAIN r.n : 4 * v.grid[q][d] = (c[d] * 16 + r.shift[d]) * r.cell[d]
\* nearest cell of particle p
CellOf(r, p) == [d \in DOMAIN r.n |-> Floor(2 * r.pts[p + 1][d] + r.Q, 2 * r.Q) % r.n[d]]
Deliveries(r, p) == {<<k, q>> \in UNION {{k} \X DOMAIN r.rk[k].got : k \in DOMAIN r.rk} : r.rk[k].got[q].id = p}
\* some copy reaches the block of the cell and addresses it; no copy addresses another cell
Routed(r, p) ==
  LET D == Deliveries(r, p)
      touch == {e \in D : r.rk[e[1]].got[e[2]].cells # <<>>}
  IN /\ Cardinality(touch) = 1
     /\ \A e \in touch : r.rk[e[1]].got[e[2]].cells = <<CellOf(r, p)>> /\ r.rk[e[1]].got[e[2]].m = 1
RECURSIVE CellsBelow(_, _)
\* the domain that a block is: edges of the domain grid and its owner agree with the blocks
DomShape(e) == [d \in DOMAIN e |-> Len(e[d]) - 1]
CellsBelow(e, d) == IF d = 0 THEN 1 ELSE CellsBelow(e, d - 1) * (Len(e[d]) - 1)
DomainsOK(r) ==
  \A k \in DOMAIN r.rk :
   LET v == r.rk[k]
       ds == DomShape(v.edges)
   IN /\ Len(v.assign) = Vol(ds)
      /\ v.assign = r.rk[1].assign /\ v.edges = r.rk[1].edges
      /\ \A f \in 0 .. Vol(ds) - 1 :
           LET c == Coord(ds, f)
               lo == [d \in DOMAIN ds |-> v.edges[d][c[d] + 1]]
               hi == [d \in DOMAIN ds |-> v.edges[d][c[d] + 2]]
           IN /\ 0 <= v.assign[f + 1] /\ v.assign[f + 1] < r.P
              /\ (\A d \in DOMAIN ds : lo[d] < hi[d]) =>
                   LET b == r.rk[v.assign[f + 1] + 1].r
                   IN b.start = lo /\ b.shape = [d \in DOMAIN ds |-> hi[d] - lo[d]]
MeshRec(r) ==
  IF r.st # "ok" THEN {"completes"}
  ELSE LET s == Stored(r.n, r.half)
           tr == Tiles(Blocks(r, "r"), r.n)
       IN Failed([
        tile |-> tr /\ Tiles(Blocks(r, "t"), s) /\ Tiles(Blocks(r, "u"), s),
        shape |-> \A k \in DOMAIN r.rk : r.rk[k].r.cshape = r.n /\ r.rk[k].t.cshape = s /\ r.rk[k].u.cshape = s,
        index |-> \A k \in DOMAIN r.rk : Idx(r.rk[k].r) /\ Idx(r.rk[k].t) /\ Idx(r.rk[k].u),
        coords |-> \A k \in DOMAIN r.rk : RealX(r, r.rk[k].r),
        wavenumbers |-> \A k \in DOMAIN r.rk : FourX(r, r.rk[k].t) /\ FourX(r, r.rk[k].u),
        fresh |-> \A k \in DOMAIN r.rk : r.rk[k].r.fresh /\ r.rk[k].t.fresh /\ r.rk[k].u.fresh,
        points |-> \A k \in DOMAIN r.rk : PointsOK(r, k),
        grid |-> (\A k \in DOMAIN r.rk : r.rk[k].samegrid /\ GridOK(r, k)),
        domains |-> DomainsOK(r),
        routed |-> \A p \in 0 .. Len(r.pts) - 1 : Routed(r, p)])

Verdict(r) == CASE r.k = "mesh" -> MeshRec(r) [] OTHER -> {"unknown-record"}
Init == i = 1
Next == /\ i <= NTrace /\ PrintT(<<"V", i, Verdict(Trace[i])>>) /\ i' = i + 1
=============================================================================
