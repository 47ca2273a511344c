------------------------------- MODULE MeshMC -------------------------------
(* Design of the block distribution: an axis of N cells over Q processes in    *)
(* blocks of Ceil(N / Q), and the claim of the domains by the ranks, arriving  *)
(* in any order; ranks without cells take what is left.                        *)
EXTENDS Mesh, TLC
CONSTANTS NMAX, QMAX
VARIABLES n, q, owner, todo
vars == <<n, q, owner, todo>>
Min(a, b) == IF a < b THEN a ELSE b
Edge(N, Q, k) == Min(k * ((N + Q - 1) \div Q), N)
Size(N, Q, k) == Edge(N, Q, k + 1) - Edge(N, Q, k)
Start(N, Q, k) == IF Size(N, Q, k) = 0 THEN 0 ELSE Edge(N, Q, k)
Cells == {<<a, b>> : a \in 0 .. q[1] - 1, b \in 0 .. q[2] - 1}
Block(c) == [start |-> <<Start(n[1], q[1], c[1]), Start(n[2], q[2], c[2])>>,
             shape |-> <<Size(n[1], q[1], c[1]), Size(n[2], q[2], c[2])>>]
Empty(c) == \E d \in 1 .. 2 : Size(n[d], q[d], c[d]) = 0
Num(c) == c[1] * q[2] + c[2]
Init == /\ n \in (1 .. NMAX) \X (1 .. NMAX) /\ q \in (1 .. QMAX) \X (1 .. QMAX)
        /\ owner = [f \in 0 .. q[1] * q[2] - 1 |-> -1] /\ todo = Cells
\* the domain whose low corner is the start of the block (known to the rank is only its block)
DomAt(b) == CHOOSE f \in 0 .. q[1] * q[2] - 1 :
              LET c == <<f \div q[2], f % q[2]>> IN
              (\A d \in 1 .. 2 : Edge(n[d], q[d], c[d]) = b.start[d] /\ Edge(n[d], q[d], c[d] + 1) > b.start[d])
Claim(c) == /\ todo' = todo \ {c}
            /\ owner' = IF ~Empty(c) THEN [owner EXCEPT ![DomAt(Block(c))] = Num(c)]
                        ELSE LET free == {f \in DOMAIN owner : owner[f] = -1}
                             IN [owner EXCEPT ![CHOOSE f \in free : \A g \in free : f <= g] = Num(c)]
            /\ UNCHANGED <<n, q>>
\* the ranks with cells claim first (in any order: here every one that may go next), the others in turn
Rest == LET S == {c \in todo : ~Empty(c)} IN IF S # {} THEN S ELSE {CHOOSE c \in todo : \A e \in todo : Num(c) <= Num(e)}
Next == IF todo = {} THEN UNCHANGED vars ELSE \E c \in Rest : Claim(c)
Blocks == [k \in 0 .. q[1] * q[2] - 1 |-> Block(<<k \div q[2], k % q[2]>>)]
Tiling == Tiles(Blocks, n)
Owned == todo = {} => /\ \A f \in DOMAIN owner : owner[f] \in 0 .. q[1] * q[2] - 1
                      /\ \A f, g \in DOMAIN owner : f # g => owner[f] # owner[g]
                      /\ \A f \in DOMAIN owner : LET c == <<f \div q[2], f % q[2]>> IN ~Empty(c) => Block(<<owner[f] \div q[2], owner[f] % q[2]>>) = Block(c)
\* signed coordinates are distinct, balanced, and name the cell modulo the mesh
SignedOK == \A N \in 1 .. 2 * NMAX : /\ \A a \in 0 .. N - 1 : Signed(N, a) % N = a /\ -N <= 2 * Signed(N, a) /\ 2 * Signed(N, a) < N
                                     /\ \A a \in 1 .. N - 1 : 2 * a # N => Signed(N, N - a) = -Signed(N, a)
=============================================================================
