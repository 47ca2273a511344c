------------------------------- MODULE LegacyMC ------------------------------
(* Laws of the older Fourier-space interface: weights count every mode of the  *)
(* full mesh once, the factors are even or odd such that real fields stay real,*)
(* and the tabulated functions agree with their identities.                    *)
EXTENDS Legacy
CONSTANTS NMAX
VARIABLES n, nb, go
Init == n \in 2 .. NMAX /\ nb \in 1 .. 5 /\ go = FALSE
Next == go' = TRUE /\ UNCHANGED <<n, nb>>
Full == <<n, n, n>>
Half3 == Stored(Full, TRUE)
K2F(f) == LET c == Coord(Full, f) IN Signed(n, c[1]) * Signed(n, c[1]) + Signed(n, c[2]) * Signed(n, c[2]) + Signed(n, c[3]) * Signed(n, c[3])
Laws == go =>
  /\ Clear(n, nb) =>
     LET sf == TLCEval([f \in 0 .. Vol(Full) - 1 |-> Shell(n, nb, K2F(f))])
         sh == TLCEval([f \in 0 .. Vol(Half3) - 1 |-> Shell(n, nb, K2At(n, Half3, f))])
     IN \* every shell below the Nyquist wavenumber counts the modes of the full mesh
        \A b \in 0 .. nb - 1 : Cardinality({f \in DOMAIN sf : sf[f] = b}) = Sum3(LAMBDA f : IF sh[f] = b THEN Twice(f, Half3) ELSE 0, Vol(Half3) - 1)
  /\ 12 % n = 0 => \A j \in 0 .. n - 1 :
        /\ SL(n, j) + SL(n, (n - j) % n) = 0
        /\ TriT(n, j) = TriT(n, (n - j) % n)
        /\ Abs(SinT(n, j) * SinT(n, j) + SinT(n, j + (n * 3) \div 12) * SinT(n, j + (n * 3) \div 12) - 16384 * 16384) < 20000 \/ n % 4 # 0
  /\ \A j \in 0 .. n - 1 : \A s \in Signs(n, j) : (s - j) % n = 0 /\ 2 * Abs(s) <= n
=============================================================================
