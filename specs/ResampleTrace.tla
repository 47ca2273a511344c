--------------------------- MODULE ResampleTrace ----------------------------
(* Recorded resamplings.                                                       *)
EXTENDS Resample, TraceIO
VARIABLE i
Zeros(k) == [f \in 1 .. k |-> 0]
Im(r, m) == IF r.im = <<>> THEN Zeros(m) ELSE r.im
Z4 == <<0, 0, 0, 0>>
\* the full source spectrum (times the cells, if the source is a field)
Source(r) ==
  IF r.from = "field" THEN Transform(r.n, r.re, Im(r, Len(r.re)), -1)
  ELSE LET u == Unfold(r.n, r.half, r.re, Im(r, Len(r.re)))
       IN TLCEval([f \in 0 .. Vol(r.n) - 1 |-> <<u.re[f + 1], 0, 0, u.im[f + 1]>>])
Expected(r) == LET p == Pick(r.n, r.m, Source(r), Z4) IN IF r.to = "field" THEN StagesTo(r.m, p, Len(r.m), 1) ELSE p
Value(r) ==
  LET e == Expected(r)
      s == IF r.to = "field" THEN r.m ELSE Stored(r.m, r.half)
  IN /\ Len(r.ore) = Vol(s)
     /\ \A f \in 0 .. Vol(s) - 1 : LET v == e[Flat(r.m, Coord(s, f))] IN
          CloseTo(TwoRe(v), r.ore[f + 1], r.tol) /\ (r.oim # <<>> => CloseTo(TwoIm(v), r.oim[f + 1], r.tol))
Verdict(r) ==
  IF r.st # "ok" THEN {"completes"}
  ELSE IF (r.from = "field" /\ ~Fits(r.n)) \/ (r.to = "field" /\ ~Fits(r.m)) THEN {"ill-formed"}
  ELSE Failed([value |-> Value(r), kept |-> r.kept, kind |-> r.kind])
Init == i = 1
Next == /\ i <= NTrace /\ PrintT(<<"V", i, Verdict(Trace[i])>>) /\ i' = i + 1
=============================================================================
