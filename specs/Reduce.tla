------------------------------- MODULE Reduce -------------------------------
(* Reductions over the full mesh of a field that may be half stored.           *)
EXTENDS Fourier
\* the number of modes of the full mesh a stored one stands for
Weight(n, half, c) == IF half /\ c[Len(n)] # 0 /\ 2 * c[Len(n)] # n[Len(n)] THEN 2 ELSE 1
SelfConjugate(n, c) == Mirror(n, c) = c
\* squared wavenumber, axis d counting q[d] per mode number
RECURSIVE K2To(_, _, _, _)
K2To(n, q, c, d) == IF d = 0 THEN 0 ELSE K2To(n, q, c, d - 1) + (q[d] * Signed(n[d], c[d])) * (q[d] * Signed(n[d], c[d]))
K2(n, q, c) == K2To(n, q, c, Len(n))
RECURSIVE SumUp(_, _)
SumUp(F(_), k) == IF k < 0 THEN 0 ELSE SumUp(F, k - 1) + F(k)
=============================================================================
