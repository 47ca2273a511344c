-------------------------- MODULE WhiteNoiseTrace ---------------------------
(* Recorded white noise.  Values are opaque: re and im parts are recorded as   *)
(* signed tokens (same magnitude, same token; zero is 0), bit for bit.         *)
EXTENDS WhiteNoise, TraceIO
VARIABLE i

Prod(n) == n[1] * n[2] * n[3]
Ix(n, m) == (m[1] * n[2] + m[2]) * n[3] + m[3] + 1
Unix(n, x) == <<(x - 1) \div (n[2] * n[3]), ((x - 1) \div n[3]) % n[2], (x - 1) % n[3]>>
Off(s, m) == [d \in 1 .. 3 |-> s[d] + m[d]]
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == IF (a >= 0) = (b >= 0) THEN Abs(a - b) <= tol ELSE Abs(a) <= tol /\ Abs(b) <= tol /\ Abs(a) + Abs(b) <= tol

\* -------- one mesh: the full spectrum against the design -------------------
Mesh3(r) ==
  LET n == r.n
      M == 1 .. Prod(n)
      conj(x) == Ix(n, Neg(n, Unix(n, x)))
      self(x) == conj(x) = x
      Drawn == {x \in M : Lower(n, Unix(n, x)) /\ ~self(x)}
  IN [complete |-> r.fresh,
      hermitian |-> \A x \in M : r.re[conj(x)] = r.re[x] /\ r.im[conj(x)] = -r.im[x],
      real |-> \A x \in M : self(x) => r.im[x] = 0,
      zero |-> r.re[1] = 0 /\ r.im[1] = 0,
      streams |-> Cardinality({Abs(r.re[x]) : x \in Drawn}) = Cardinality(Drawn),
      modulus |-> \A x \in 2 .. Prod(n) : Near(r.umod[x], r.unit, 2),
      phase |-> \A x \in 2 .. Prod(n) : IF self(x) THEN r.uone[x] ELSE Near(r.ucos[x], r.cos[x], 4) /\ Near(r.usin[x], r.sin[x], 4),
      uzero |-> r.umod[1] = 0]
\* one- and two-dimensional noise is stored as size <<1, n1, n2>>: Hermitian to rounding, unit modulus
Mesh2(r) ==
  LET n == r.n
      M == 1 .. Prod(n)
      conj(x) == Ix(n, Neg(n, Unix(n, x)))
  IN [complete |-> r.fresh,
      hermitian |-> \A x \in M : Near(r.fre[conj(x)], r.fre[x], 3) /\ Near(r.fim[conj(x)], -r.fim[x], 3),
      modulus |-> \A x \in M : Near(r.umod[x], r.unit, 2)]

\* a block holds, element for element, what the whole mesh holds there
BlockOK(r, b) ==
  LET re == IF b.u THEN (IF b.prec = 4 THEN r.ure4 ELSE r.ure8) ELSE (IF b.prec = 4 THEN r.re4 ELSE r.re)
      im == IF b.u THEN (IF b.prec = 4 THEN r.uim4 ELSE r.uim8) ELSE (IF b.prec = 4 THEN r.im4 ELSE r.im)
  IN \A x \in 1 .. Prod(b.size) :
       LET g == Ix(r.n, Off(b.start, Unix(b.size, x))) IN b.re[x] = re[g] /\ b.im[x] = im[g]
Blocks(r) == [block |-> \A k \in DOMAIN r.blocks : BlockOK(r, r.blocks[k]),
              outside |-> \A k \in DOMAIN r.blocks : r.blocks[k].outside]

Noise(r) == IF r.st # "ok" THEN {"completes"}
            ELSE Failed(IF r.nd = 3 THEN Mesh3(r) ELSE Mesh2(r)) \cup Failed(Blocks(r))

\* -------- two sizes, same seed ---------------------------------------------
\* the modes strictly inside both Nyquist limits
Common(n, s) == {m \in Modes(n) : Inside(n, m) /\ \A d \in 1 .. 3 : LET k == Signed1(n[d], m[d]) IN 2 * Abs(k) < s[d]}
Scale(r) ==
  IF r.st # "ok" THEN {"completes"}
  ELSE Failed([lowmodes |-> \A m \in Common(r.n, r.s) :
                  LET a == Ix(r.n, m) b == Ix(r.s, ModeOf(r.s, Signed(r.n, m)))
                  IN r.re[a] = r.sre[b] /\ r.im[a] = r.sim[b],
               streams |-> r.wide =>
                  LET D == {m \in Modes(r.n) : Lower(r.n, m) /\ ~SelfConj(r.n, m)}
                  IN Cardinality({Abs(r.re[Ix(r.n, m)]) : m \in D}) = Cardinality(D),
               unitary |-> \A m \in Common(r.n, r.s) :
                  LET a == Ix(r.n, m) b == Ix(r.s, ModeOf(r.s, Signed(r.n, m)))
                  IN r.ure[a] = r.sure[b] /\ r.uim[a] = r.suim[b]])

\* -------- several calls: same seed, same noise; other seed, other noise -----
Seeds(r) ==
  IF r.st # "ok" THEN {"completes"}
  ELSE LET V(a) == {Abs(r.re[a][x]) : x \in DOMAIN r.re[a]} \ {0}
       IN Failed([repeat |-> \A a, b \in DOMAIN r.seed : r.seed[a] = r.seed[b] => r.re[a] = r.re[b] /\ r.im[a] = r.im[b],
                  seeds |-> \A a, b \in DOMAIN r.seed : r.seed[a] # r.seed[b] => V(a) \cap V(b) = {}])

\* -------- a few modes of large meshes ---------------------------------------
Holds(p, g) == \A d \in 1 .. 3 : 0 <= g[d] - p.start[d] /\ g[d] - p.start[d] < p.size[d]
In(p, g) == Ix(p.size, [d \in 1 .. 3 |-> g[d] - p.start[d]])
Wide(r) ==
  IF r.st # "ok" THEN {"completes"}
  ELSE LET Of(p) == {Off(p.start, Unix(p.size, x)) : x \in 1 .. Prod(p.size)}
           P == r.p
           Alike == {q \in (DOMAIN P) \X (DOMAIN P) : P[q[1]].u = P[q[2]].u}
           Same == {q \in Alike : P[q[1]].m = P[q[2]].m}
       IN Failed(
      [complete |-> \A a \in DOMAIN P : P[a].fresh,
       block |-> \A q \in Same : LET a == P[q[1]] b == P[q[2]] IN \A g \in Of(a) : Holds(b, g) =>
                    a.re[In(a, g)] = b.re[In(b, g)] /\ a.im[In(a, g)] = b.im[In(b, g)],
       hermitian |-> \A q \in Same : LET a == P[q[1]] b == P[q[2]] n == r.n[a.m] IN \A g \in Of(a) : Holds(b, Neg(n, g)) =>
                    a.re[In(a, g)] = b.re[In(b, Neg(n, g))] /\ a.im[In(a, g)] = -b.im[In(b, Neg(n, g))],
       zero |-> \A a \in DOMAIN P : Holds(P[a], <<0, 0, 0>>) => P[a].re[In(P[a], <<0, 0, 0>>)] = 0,
       streams |-> r.wide => \A q \in Same : LET a == P[q[1]] b == P[q[2]] n == r.n[a.m] IN ~a.u =>
                    \A g \in Of(a) : \A x \in 1 .. Prod(b.size) : Abs(b.re[x]) = Abs(a.re[In(a, g)]) =>
                       LET h == Off(b.start, Unix(b.size, x)) IN h = g \/ h = Neg(n, g),
       lowmodes |-> \A q \in Alike \ Same : LET a == P[q[1]] b == P[q[2]] n == r.n[a.m] s == r.n[b.m] IN
                    \A g \in Of(a) : LET h == ModeOf(s, Signed(n, g)) IN (Inside(n, g) /\ Inside(s, h) /\ Signed(s, h) = Signed(n, g) /\ Holds(b, h)) =>
                       a.re[In(a, g)] = b.re[In(b, h)] /\ a.im[In(a, g)] = b.im[In(b, h)]])

\* -------- the mesh object on several ranks ---------------------------------
\* every rank's block, and the blocks together are the whole mesh
Field(r) ==
  IF r.st # "ok" THEN {"completes"}
  ELSE Failed([block |-> \A k \in DOMAIN r.blocks :
                  \A x \in 1 .. Prod(r.blocks[k].size) :
                    LET g == Ix(r.n, Off(r.blocks[k].start, Unix(r.blocks[k].size, x))) IN
                    IF g = 1 THEN r.blocks[k].mean = r.mean
                    ELSE r.blocks[k].re[x] = r.re[g] /\ r.blocks[k].im[x] = r.im[g],
               cover |-> \A g \in 1 .. Prod(r.n) : (r.half => Unix(r.n, g)[3] <= r.n[3] \div 2) =>
                  Cardinality({k \in DOMAIN r.blocks : \A d \in 1 .. 3 : LET o == Unix(r.n, g)[d] - r.blocks[k].start[d]
                               IN 0 <= o /\ o < r.blocks[k].size[d]}) = 1,
               kind |-> r.good])
\* a real field of white noise has, once transformed, the modes of the spectrum (fixed point)
RealField(r) ==
  IF r.st # "ok" THEN {"completes"}
  ELSE Failed([modes |-> \A x \in DOMAIN r.re : Near(r.re[x], r.tre[x], r.tol) /\ Near(r.im[x], r.tim[x], r.tol), kind |-> r.good])

Verdict(r) == CASE r.k = "noise" -> Noise(r)
                [] r.k = "scale" -> Scale(r)
                [] r.k = "seeds" -> Seeds(r)
                [] r.k = "wide" -> Wide(r)
                [] r.k = "field" -> Field(r)
                [] r.k = "rfield" -> RealField(r)
                [] OTHER -> {"unknown-record"}
Init == i = 1
Next == /\ i <= NTrace /\ PrintT(<<"V", i, Verdict(Trace[i])>>) /\ i' = i + 1
=============================================================================
