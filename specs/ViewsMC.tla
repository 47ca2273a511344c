------------------------------ MODULE ViewsMC ------------------------------
(* The views as a design: flattening and rebuilding are inverse on every       *)
(* block distribution, and projections and transpositions compose.             *)
EXTENDS Views, TLC
CONSTANTS NMAX, QMAX, ND
VARIABLES n, q, w, go
Min(a, b) == IF a < b THEN a ELSE b
Edge(N, Q, k) == Min(k * ((N + Q - 1) \div Q), N)
Size(N, Q, k) == Edge(N, Q, k + 1) - Edge(N, Q, k)
Start(N, Q, k) == IF Size(N, Q, k) = 0 THEN 0 ELSE Edge(N, Q, k)
\* the first two axes are dealt out
Procs == IF ND = 1 THEN <<q[1]>> ELSE <<q[1], q[2]>>
Blocks == [k \in 1 .. Vol(Procs) |->
   LET c == Coord(Procs, k - 1) IN
   [start |-> [d \in 1 .. ND |-> IF d <= Len(Procs) THEN Start(n[d], Procs[d], c[d]) ELSE 0],
    shape |-> [d \in 1 .. ND |-> IF d <= Len(Procs) THEN Size(n[d], Procs[d], c[d]) ELSE n[d]], v |-> <<>>]]
Init == /\ go = FALSE /\ n \in [1 .. ND -> 1 .. NMAX] /\ q \in (1 .. QMAX) \X (1 .. QMAX)
        /\ \E m \in 1 .. 3 : w = [f \in 1 .. Vol(n) |-> (f * f * m + 7 * f) % 23]
\* (the laws are looked at in the second state, where the workers share them)
Next == go' = TRUE /\ UNCHANGED <<n, q, w>>
RECURSIVE Concat(_, _)
Concat(ss, k) == IF k = 0 THEN <<>> ELSE Concat(ss, k - 1) \o ss[k]
Dealt == Deal(Blocks, n, w)
Tiling == Tiles(Blocks, n)
Rebuilt == Whole(Dealt, n) = w
Flattened == LET p == Parts(Dealt, n) IN Concat(p, Len(p)) = w /\ \A k \in DOMAIN p : Len(p[k]) = Vol(Blocks[k].shape)
Axes == UNION {{s \in [1 .. m -> 1 .. ND] : \A a, b \in 1 .. m : a # b => s[a] # s[b]} : m \in 1 .. ND}
\* projecting in two steps is projecting at once
Compose == \A ax \in Axes : LET p == Project(w, n, ax) m == Kept(n, ax) IN
             \A k \in 1 .. Len(ax) : Project(p, m, <<k>>) = Project(w, n, <<ax[k]>>)
Total == \A ax \in Axes : SumTo(Project(w, n, ax), 0 .. Vol(Kept(n, ax)) - 1, 0) = SumTo(w, 0 .. Vol(n) - 1, 0)
\* transposing by axes and then by the inverse changes nothing
Undo(ax) == [d \in DOMAIN ax |-> CHOOSE k \in DOMAIN ax : ax[k] = d]
Back == \A ax \in Axes : Len(ax) = ND => Project(Project(w, n, ax), Kept(n, ax), Undo(ax)) = w /\ Turn(w, n, ax) = Project(w, n, ax)
Laws == go => Tiling /\ Rebuilt /\ Flattened /\ Compose /\ Total /\ Back
=============================================================================
