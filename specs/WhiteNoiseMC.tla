---------------------------- MODULE WhiteNoiseMC ----------------------------
(* The generator as a state machine: the spiral is walked as the code walks it *)
(* (eight runs per ring, one random number per step, steps off the mesh        *)
(* skipped) while the table of column seeds fills up.  TLC runs it for every   *)
(* mesh size in scope and checks, when it has finished, that every mode has    *)
(* exactly one source, conjugate modes have the same source, and sources do    *)
(* not depend on the size of the mesh.                                         *)
EXTENDS WhiteNoise, TLC
CONSTANTS MaxN
VARIABLES n1, n2, ring, run, j, drawn, seeds, done
vars == <<n1, n2, ring, run, j, drawn, seeds, done>>
Init == /\ n1 \in 1 .. MaxN /\ n2 \in 1 .. MaxN
        /\ ring = 0 /\ run = 0 /\ j = 0 /\ drawn = 0
        /\ seeds = [c \in {} |-> 0] /\ done = FALSE
MaxN2 == IF n1 > n2 THEN n1 ELSE n2
Len_(r, q) == IF q % 2 = 0 THEN r ELSE r + 1
\* the column visited at step j of a run
At(r, q, jj) ==
  LET s == q \div 2
      long == q % 2 = 1
      a == IF long THEN jj ELSE r
      b == IF long THEN r ELSE jj
  IN <<IF s % 2 = 1 THEN -1 - a ELSE a, IF s \div 2 = 1 THEN -1 - b ELSE b>>
OnMesh(c) == /\ -(n1 \div 2) <= c[1] /\ c[1] <= (n1 - 1) \div 2
             /\ -(n2 \div 2) <= c[2] /\ c[2] <= (n2 - 1) \div 2
Draw == /\ ~done /\ 2 * ring < MaxN2 /\ j < Len_(ring, run)
        /\ LET c == At(ring, run, j) IN
           seeds' = IF OnMesh(c) THEN (c :> Append(IF c \in DOMAIN seeds THEN seeds[c] ELSE <<>>, drawn)) @@ seeds ELSE seeds
        /\ drawn' = drawn + 1 /\ j' = j + 1 /\ UNCHANGED <<n1, n2, ring, run, done>>
NextRun == /\ ~done /\ 2 * ring < MaxN2 /\ j >= Len_(ring, run)
           /\ run' = (run + 1) % 8 /\ ring' = IF run = 7 THEN ring + 1 ELSE ring
           /\ j' = 0 /\ UNCHANGED <<n1, n2, drawn, seeds, done>>
Finish == /\ ~done /\ 2 * ring >= MaxN2 /\ done' = TRUE /\ UNCHANGED <<n1, n2, ring, run, j, drawn, seeds>>
Next == Draw \/ NextRun \/ Finish
Spec == Init /\ [][Next]_vars
\* every column has one seed, the one the closed form says, whatever the mesh
Seeded == done => /\ DOMAIN seeds = {<<Signed1(n1, a), Signed1(n2, b)>> : a \in 0 .. n1 - 1, b \in 0 .. n2 - 1}
                  /\ \A c \in DOMAIN seeds : seeds[c] = <<SpiralNo(c[1], c[2])>>
OneColumnPerSeed == done => \A c, e \in DOMAIN seeds : seeds[c] = seeds[e] => c = e
Sizes == {<<n1, n2, n3>> : n3 \in 1 .. MaxN}
Hermitian == done => \A n \in Sizes : \A m \in Modes(n) :
     LET s == Source(n, m) t == Source(n, Neg(n, m)) IN
     /\ s.column = t.column /\ s.step = t.step /\ (s.conj = ~t.conj \/ SelfConj(n, m))
     /\ ~SelfConj(n, m) => \A o \in Modes(n) : (Source(n, o).column = s.column /\ Source(n, o).step = s.step) => o \in {m, Neg(n, m)}
\* inside both Nyquist limits the source is the same on the larger mesh
ScaleFree == done => \A n \in Sizes : \A m \in Modes(n) :
     Inside(n, m) => LET big == [d \in 1 .. 3 |-> n[d] + 2] IN
        Source(big, ModeOf(big, Signed(n, m))) = Source(n, m) \/ OnPlane(n, m)
\* on the plane k3 = 0 the drawn one of a pair might differ, but does not
ScaleFreePlane == done => \A n \in Sizes : \A m \in Modes(n) :
     (Inside(n, m) /\ m[3] = 0) => LET big == [d \in 1 .. 3 |-> n[d] + 2] IN
        Source(big, ModeOf(big, Signed(n, m))) = Source(n, m)
=============================================================================
