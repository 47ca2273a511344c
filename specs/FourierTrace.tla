---------------------------- MODULE FourierTrace ----------------------------
(* Recorded transforms and conversions of real fields, against the exact       *)
(* transform.                                                                  *)
EXTENDS Fourier, TraceIO
VARIABLE i
Zeros(k) == [f \in 1 .. k |-> 0]
Im(r, m) == IF r.im = <<>> THEN Zeros(m) ELSE r.im
\* out: the stored spectrum of the integer field (r.re, r.im), in units of
\* 1 / (2 cells 16384)
SpectrumOf(r, re, im) ==
  LET s == Stored(r.n, r.half)
      F == Transform(r.n, re, im, -1)
  IN /\ Len(r.ore) = Vol(s) /\ Len(r.oim) = Vol(s)
     /\ \A f \in 0 .. Vol(s) - 1 : Close(F[Flat(r.n, Coord(s, f))], r.ore[f + 1], r.oim[f + 1], r.tol)
\* out: the field of the integer spectrum, in units of 1 / (2 16384)
FieldOf(r, re, im) ==
  LET F == Transform(r.n, re, im, 1)
  IN /\ Len(r.ore) = Vol(r.n)
     /\ \A f \in 0 .. Vol(r.n) - 1 : CloseTo(TwoRe(F[f]), r.ore[f + 1], r.tol)
                                      /\ (r.oim # <<>> => CloseTo(TwoIm(F[f]), r.oim[f + 1], r.tol))
SameInts(r) == /\ Len(r.ore) = Len(r.re)
               /\ \A f \in DOMAIN r.re : Near(r.ore[f], r.re[f] * 2 * Unit, r.tol)
                                         /\ (r.oim # <<>> => Near(r.oim[f], Im(r, Len(r.re))[f] * 2 * Unit, r.tol))
Transformed(r) ==
  IF r.st # "ok" THEN {"completes"}
  ELSE IF ~Fits(r.n) THEN {"ill-formed"}
  ELSE LET u == IF r.from = "spectrum" THEN Unfold(r.n, r.half, r.re, Im(r, Len(r.re))) ELSE [re |-> r.re, im |-> Im(r, Len(r.re))] IN
       Failed([value |-> CASE r.from = "field" /\ r.to = "spectrum" -> SpectrumOf(r, u.re, u.im)
                           [] r.from = "spectrum" /\ r.to = "field" -> FieldOf(r, u.re, u.im)
                           [] OTHER -> SameInts(r),
               kept |-> r.kept, kind |-> r.kind])
\* the spectrum of a point source: all amplitudes 1, phases as the position says
RECURSIVE Turns(_, _, _, _)
Turns(r, c, d, acc) == IF d = 0 THEN acc ELSE Turns(r, c, d - 1, acc + c[d] * r.x[d] * (r.L \div r.n[d]))
Delta(r) ==
  IF r.st # "ok" THEN {"completes"}
  ELSE LET s == Stored(r.n, r.half) IN
       Failed([value |-> /\ Len(r.ph) = Vol(s)
                         /\ r.off <= r.tol
                         /\ \A f \in 0 .. Vol(s) - 1 : (r.ph[f + 1] + Turns(r, Coord(s, f), Len(r.n), 0)) % r.L = 0,
               inverse |-> r.back <= r.tol])
Verdict(r) == CASE r.k = "delta" -> Delta(r) [] r.k = "transform" -> Transformed(r) [] OTHER -> {"unknown-record"}
Init == i = 1
Next == /\ i <= NTrace /\ PrintT(<<"V", i, Verdict(Trace[i])>>) /\ i' = i + 1
=============================================================================
