----------------------------- MODULE LegacyTrace -----------------------------
(* Recorded calls of the older transfer functions, coordinates and painters.   *)
EXTENDS Legacy, TraceIO
VARIABLE i
\* out is within tol of num / den, out in units of 1 / unit
Ratio(out, num, den, unit, tol) == Abs(out * den - num * unit) <= tol * Abs(den)
Side(r) == <<r.N, r.N, r.N>>
S(r) == Stored(Side(r), TRUE)
M(r) == Vol(S(r))
\* complex values before (r.re, r.im: integers) and after (r.ore, r.oim: units of 1 / r.unit)
Each(r, ok(_, _, _, _, _)) == Len(r.ore) = M(r) /\ \A f \in 0 .. M(r) - 1 : ok(f, r.re[f + 1], r.im[f + 1], r.ore[f + 1], r.oim[f + 1])
Both(r, num(_), den(_)) == Each(r, LAMBDA f, a, b, x, y : Ratio(x, a * num(f), den(f), r.unit, r.tol) /\ Ratio(y, b * num(f), den(f), r.unit, r.tol))
Turned(r, num(_), den(_)) == Each(r, LAMBDA f, a, b, x, y : Ratio(x, -b * num(f), den(f), r.unit, r.tol) /\ Ratio(y, a * num(f), den(f), r.unit, r.tol))
One(f) == 1
Factor(r) ==
  LET s == S(r)
      k2(f) == K2At(r.N, s, f)
      at(f) == Coord(s, f)[r.dir]
      tri(f) == LET c == Coord(s, f) IN (TriT(r.N, c[1]) * TriT(r.N, c[2])) \div 10000
      tri3(f) == (tri(f) * TriT(r.N, Coord(s, f)[3])) \div 10000
      gs(f) == IF k2(f) > 12 THEN 0 ELSE Half(4096, k2(f))
  IN CASE r.fn = "RemoveDC"    -> Both(r, LAMBDA f : IF f = 0 THEN 0 ELSE 1, One)
       [] r.fn = "NormalizeDC" -> Both(r, One, LAMBDA f : r.re[1])
       [] r.fn = "Constant"    -> Both(r, LAMBDA f : r.C, One)
       \* in units of (2 pi / n)^2 and its inverse
       [] r.fn = "Laplace"     -> Both(r, LAMBDA f : -k2(f), One)
       [] r.fn = "Poisson"     -> Both(r, LAMBDA f : IF f = 0 THEN 0 ELSE -1, LAMBDA f : IF f = 0 THEN 1 ELSE k2(f))
       \* the smoothing is chosen such that the factor is 2^-k2
       [] r.fn = "Gaussian"    -> Both(r, gs, LAMBDA f : 4096)
       \* i w in units of 2 pi / n
       [] r.fn = "order0"      -> Turned(r, LAMBDA f : Sig(r.N, at(f)), One) \/ Turned(r, LAMBDA f : IF 2 * at(f) = r.N THEN at(f) ELSE Sig(r.N, at(f)), One)
       [] r.fn = "SuperLanzcos" -> 12 % r.N = 0 /\ Turned(r, LAMBDA f : SL(r.N, at(f)) \div 6, LAMBDA f : 16384)
       [] r.fn = "Trilinear"   -> 12 % r.N = 0 /\ Both(r, tri3, LAMBDA f : 10000)
       [] OTHER -> FALSE
Transfer(r) == IF r.st # "ok" THEN {"completes"} ELSE Failed([factor |-> Factor(r), chain |-> r.chain])
Spectrum(r) ==
  IF r.st # "ok" THEN {"completes"}
  ELSE IF ~Clear(r.N, r.nb) THEN {"ill-formed"}
  ELSE
  LET s == S(r)
      sh == TLCEval([f \in 0 .. M(r) - 1 |-> Shell(r.N, r.nb, K2At(r.N, s, f))])
      num(b) == Sum3(LAMBDA f : IF sh[f] = b THEN Twice(f, s) ELSE 0, M(r) - 1)
      pow(b) == Sum3(LAMBDA f : IF sh[f] = b THEN Twice(f, s) * (r.re[f + 1] * r.re[f + 1] + r.im[f + 1] * r.im[f + 1]) ELSE 0, M(r) - 1)
      wav(b) == Sum3(LAMBDA f : IF sh[f] = b THEN Twice(f, s) * Root[K2At(r.N, s, f)] ELSE 0, M(r) - 1)
      ok(b) == LET m == num(b) IN m = 0 \/ (Ratio(r.ps[b + 1], pow(b), m, 1000, r.tol) /\ Ratio(r.wo[b + 1], wav(b), m, 1, 2))
  IN Failed([spectrum |-> Len(r.ps) = r.nb /\ Len(r.wo) = r.nb /\ \A b \in 0 .. r.nb - 1 : ok(b), kept |-> r.kept])
\* coordinates of the rows of one axis from index r.start on: integers, in units of the
\* smallest wavenumber or of a cell
Coords(r) == IF r.st # "ok" THEN {"completes"}
             ELSE Failed([coords |-> \A q \in DOMAIN r.axes : LET a == r.axes[q] IN
                            Len(a.v) = a.len /\ \A j \in DOMAIN a.v : a.v[j] \in Signs(r.N, a.start + j - 1)])
\* does a quadratic deposit leave a mesh that is not periodic: for sure, or only with
\* cells of no weight
Out2(r, all) == \E q \in DOMAIN r.g : \E d \in DOMAIN r.size :
   \E c \in (r.g[q][d] \div r.Q) - 2 .. (r.g[q][d] \div r.Q) + 3 :
      /\ (c < 0 \/ c >= r.size[d])
      /\ LET z == 2 * Abs(r.g[q][d] - c * r.Q) IN IF all THEN z <= 3 * r.Q ELSE z < 3 * r.Q
Raises(r) == Failed([rejects |-> Out2(r, FALSE) => r.st # "ok", accepts |-> ~Out2(r, TRUE) => r.st = "ok"])
Verdict(r) ==
  CASE r.k = "tf" -> Transfer(r)
    [] r.k = "ps" -> Spectrum(r)
    [] r.k = "coords" -> Coords(r)
    [] r.k = "raises" -> Raises(r)
    [] OTHER -> {"unknown-record"}
Init == i = 0
Next == i < NTrace /\ i' = i + 1 /\ PrintT(<<"V", i + 1, Verdict(Trace[i + 1])>>)
=============================================================================
