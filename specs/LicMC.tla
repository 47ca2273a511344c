-------------------------------- MODULE LicMC --------------------------------
(* Laws of the line integral convolution for every vector field in scope:     *)
(* a constant texture gives the integral of the kernel, vectors of length 0   *)
(* give the same; moving field and texture moves the image; turning all       *)
(* vectors around while mirroring the kernel changes nothing; in one dimension *)
(* with the nearest window the pixels passed are the ones counted by hand.     *)
EXTENDS Lic
CONSTANTS N1, N2, VMAX, JMAX, P
VARIABLES v, J, go
n == <<N1, N2>>
K == N1 * N2
Init == v \in [1 .. 2 -> [1 .. K -> -VMAX .. VMAX]] /\ J \in 1 .. JMAX /\ go = FALSE
Next == go' = TRUE /\ UNCHANGED <<v, J>>
tex == [k \in 1 .. K |-> k * k - 3]
ker(s, j) == 2 + s * j
rek(s, j) == 2 - s * j
Z == 2
H == <<1, 1>>
RECURSIVE SumK(_)
SumK(j) == IF j = J THEN 0 ELSE ker(1, j) + ker(-1, j) + SumK(j + 1)
To(k, a, b) == LET c == Coo(n, 2, k) IN ((c[1] + a) % N1) * N2 + ((c[2] + b) % N2)
Moved(F, a, b) == [k \in 1 .. K |-> F[To(k - 1, N1 - a, N2 - b) + 1]]
\* the cells and weights are those of the window
ASSUME \A p \in 0 .. 1 : \A z \in {1, 2, 4} : \A m \in 1 .. 3 : \A g \in -9 .. 14 :
   LET a == AxisRead(p, z, g, m)
       row == AxisRow(p, z, 2 * (p + 1), FALSE, 4, g, m, m, IF p = 0 THEN 1 ELSE z)
   IN \A t \in 0 .. m - 1 : row[t] = SumW({k \in DOMAIN a : a[k][1] = t}, [k \in DOMAIN a |-> a[k][2]], 0)
Laws == go =>
  LET img == TLCEval([k \in 0 .. K - 1 |-> Pixel(n, P, Z, v, tex, H, J, ker, 1, 2, k)])
      one == [k \in 1 .. K |-> 1]
      mv == TLCEval([d \in 1 .. 2 |-> Moved(v[d], 1, 1)])
      mt == TLCEval(Moved(tex, 1, 1))
      back == TLCEval([d \in 1 .. 2 |-> [k \in 1 .. K |-> -v[d][k]]])
  IN \A k \in 0 .. K - 1 :
        /\ LET q == Pixel(n, P, Z, v, one, H, J, ker, 1, 2, k) IN q[1] = (2 + SumK(0)) * q[2]
        /\ (\A d \in 1 .. 2 : \A c \in 1 .. K : v[d][c] = 0) => img[k][1] = tex[k + 1] * (2 + SumK(0)) * img[k][2]
        /\ LET q == Pixel(n, P, Z, mv, mt, H, J, ker, 1, 2, To(k, 1, 1)) IN q = img[k]
        /\ LET q == Pixel(n, P, Z, back, tex, H, J, rek, 1, 2, k) IN P = 1 => q = img[k]
=============================================================================
