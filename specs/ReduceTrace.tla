---------------------------- MODULE ReduceTrace -----------------------------
(* Recorded reductions and element-wise gradients.                             *)
EXTENDS Reduce, TraceIO
VARIABLE i
Sh(r) == Stored(r.n, r.half)
Im(a, m) == IF a = <<>> THEN [f \in 1 .. m |-> 0] ELSE a
\* the metric of mode c: |k|^2 + 1, or 1
Metric(r, c) == IF r.metric THEN K2(r.n, r.q, c) + 1 ELSE 1
Norm(r, x, y) == CASE r.norm = "square" -> x * x + y * y [] r.norm = "abs" -> Abs(x) + Abs(y) [] r.norm = "fourth" -> (x * x + y * y) * (x * x + y * y)
                   [] r.norm = "one" -> 1
\* <<real, imaginary>> of the reduction over the full mesh
Full(r) ==
  LET m == Vol(Sh(r))
      ai == Im(r.aim, m)
      A == Unfold(r.n, r.half, r.are, ai)
      bi == Im(r.bim, m)
      B == IF r.bre = <<>> THEN A ELSE Unfold(r.n, r.half, r.bre, bi)
      k == Vol(r.n) - 1
      sre(f) == A.re[f + 1]
      sim(f) == A.im[f + 1]
      dre(f) == (A.re[f + 1] * B.re[f + 1] + A.im[f + 1] * B.im[f + 1]) * Metric(r, Coord(r.n, f))
      dim(f) == (A.im[f + 1] * B.re[f + 1] - A.re[f + 1] * B.im[f + 1]) * Metric(r, Coord(r.n, f))
      nrm(f) == Norm(r, A.re[f + 1], A.im[f + 1]) * Metric(r, Coord(r.n, f))
  IN CASE r.op = "sum" -> <<SumUp(sre, k), SumUp(sim, k)>>
       [] r.op = "dot" -> <<SumUp(dre, k), IF r.half THEN 0 ELSE SumUp(dim, k)>>
       [] r.op = "norm" -> <<SumUp(nrm, k), 0>>
\* the imaginary part of an inner product of half-stored spectra means nothing
Reduced(r) == LET e == Full(r) IN
   [value |-> \A k \in DOMAIN r.res : Near(r.res[k][1], e[1], r.tol) /\ (r.half \/ Near(r.res[k][2], e[2], r.tol)),
    everywhere |-> \A k \in DOMAIN r.bits : r.bits[k] = r.bits[1], kept |-> r.kept]
\* gradients of the inner product, and of completing a half-stored spectrum
Factor(r, c) == CASE r.op = "cdot" -> r.v * Metric(r, c)
                  [] r.op = "decompress" -> IF SelfConjugate(r.n, c) THEN 1 ELSE 2
Elements(r) == LET s == Sh(r) IN
   [value |-> Len(r.ore) = Vol(s) /\ \A f \in 0 .. Vol(s) - 1 : LET w == Factor(r, Coord(s, f)) IN
                 Near(r.ore[f + 1], w * r.are[f + 1], r.tol) /\ Near(r.oim[f + 1], w * r.aim[f + 1], r.tol),
    kept |-> r.kept, kind |-> r.kind]
Verdict(r) == IF r.st # "ok" THEN {"completes"} ELSE
   CASE r.k = "reduce" -> Failed(Reduced(r)) [] r.k = "elements" -> Failed(Elements(r)) [] OTHER -> {"unknown-record"}
Init == i = 1
Next == /\ i <= NTrace /\ PrintT(<<"V", i, Verdict(Trace[i])>>) /\ i' = i + 1
=============================================================================
