--------------------------- MODULE InvariantTrace ---------------------------
(* Recorded mode numbers.  Which order a shell is numbered in is left open:    *)
(* the clauses only say what the numbering guarantees.                         *)
EXTENDS Invariant, TraceIO
VARIABLE i

\* all modes of the cube -M..M, row-major: what number each has
Flat(M, d, x) == LET RECURSIVE F(_, _) F(k, a) == IF k > d THEN a ELSE F(k + 1, a * (2 * M + 1) + x[k] + M) IN F(1, 0) + 1
At(r, x) == r.num[Flat(r.M, r.d, x)]
Table(r) ==
  IF r.st # "ok" THEN {"completes"}
  ELSE LET Has == {x \in Cube(r.M, r.d) : Numbered(x, r.comp)} IN
  Failed([compressed |-> \A x \in Cube(r.M, r.d) : Numbered(x, r.comp) \/ At(r, x) = -1,
          \* without gaps, without repeats, inside out: every ball has exactly the first numbers
          ball |-> \A s \in 0 .. r.M : {At(r, x) : x \in {y \in Has : Shell(y) <= s}} = 0 .. Volume(s, r.d, r.comp) - 1,
          mesh |-> \A s \in 1 .. r.M :
             LET Q == {x \in Has : \A d \in 1 .. r.d : -s < x[d] /\ x[d] <= s}
             IN {At(r, x) : x \in Q} = 0 .. Cardinality(Q) - 1])

\* queries on meshes: the answer is the number in the table, or -1
Answer(r, q, x) ==
  LET f == Folded(q.n, x) t == At(r, f) IN
  IF ~OnMesh(q.n, x) THEN -1 ELSE IF q.lim >= 0 /\ t >= q.lim THEN -1 ELSE t
Queries(r) ==
  IF r.st # "ok" THEN {"completes"}
  ELSE Failed([shape |-> \A k \in DOMAIN r.q : r.q[k].shape,
               inputs |-> \A k \in DOMAIN r.q : r.q[k].inputs,
               answer |-> \A k \in DOMAIN r.q : \A j \in DOMAIN r.q[k].x :
                  IF OnMesh(r.q[k].n, r.q[k].x[j]) THEN r.q[k].a[j] = Answer(r, r.q[k], r.q[k].x[j]) ELSE TRUE,
               offmesh |-> \A k \in DOMAIN r.q : \A j \in DOMAIN r.q[k].x :
                  OnMesh(r.q[k].n, r.q[k].x[j]) \/ r.q[k].a[j] = -1])

\* far modes: inside their shell's range, and one-to-one
Far(r) ==
  IF r.st # "ok" THEN {"completes"}
  ELSE Failed([ball |-> \A j \in DOMAIN r.x : Numbered(r.x[j], r.comp) =>
                  LET s == Shell(r.x[j]) IN
                  /\ r.num[j] # <<>>
                  /\ Less(r.num[j], BigVolume(s, r.d, r.comp))
                  /\ s > 0 => ~Less(r.num[j], BigVolume(s - 1, r.d, r.comp)),
               compressed |-> \A j \in DOMAIN r.x : Numbered(r.x[j], r.comp) \/ r.num[j] = <<>>,
               onetoone |-> \A j, k \in DOMAIN r.x : (r.num[j] = r.num[k] /\ r.num[j] # <<>>) => r.x[j] = r.x[k],
               limit |-> \A j \in DOMAIN r.x :
                  r.lnum[j] = IF r.num[j] # <<>> /\ ~Less(r.num[j], r.lim) THEN <<>> ELSE r.num[j]])

Verdict(r) == CASE r.k = "table" -> Table(r)
                [] r.k = "query" -> Queries(r)
                [] r.k = "far" -> Far(r)
                [] OTHER -> {"unknown-record"}
Init == i = 1
Next == /\ i <= NTrace /\ PrintT(<<"V", i, Verdict(Trace[i])>>) /\ i' = i + 1
=============================================================================
