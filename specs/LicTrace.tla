------------------------------ MODULE LicTrace ------------------------------
(* Recorded images against the definition.                                     *)
EXTENDS Lic, TraceIO
VARIABLE i
Image(r) ==
  LET v == IF r.normalize THEN TLCEval(Unit(r.v)) ELSE r.v
      ker(s, j) == r.ka + s * j * r.kb
      px(k) == Pixel(r.n, r.p, r.z, v, r.tex, r.h, r.J, ker, r.e, r.E, k)
      ok(k) == LET q == px(k) IN r.S % q[2] = 0 /\ Abs(r.out[k + 1] - q[1] * (r.S \div q[2])) <= r.tol
  IN IF r.st # "ok" THEN {"completes"}
     ELSE IF r.normalize /\ ~Axial(r.v) THEN {"ill-formed"}
     ELSE Failed([image |-> Len(r.out) = Vol(r.n, Len(r.n)) /\ \A k \in 0 .. Vol(r.n, Len(r.n)) - 1 : ok(k),
                  inputs |-> r.inputs, kernel |-> \A a \in DOMAIN r.args : r.args[a] >= -r.unit /\ r.args[a] <= r.unit])
\* any vectors and windows: the same image as on one rank, and the vectors used as they are
\* or at unit length
Same(r) ==
  IF r.st # "ok" THEN {"completes"}
  ELSE Failed([same |-> Len(r.a) = Len(r.b) /\ \A k \in DOMAIN r.a : Abs(r.a[k] - r.b[k]) <= r.tol, inputs |-> r.inputs])
Verdict(r) == CASE r.k = "lic" -> Image(r) [] r.k = "licsame" -> Same(r) [] OTHER -> {"unknown-record"}
Init == i = 0
Next == i < NTrace /\ i' = i + 1 /\ PrintT(<<"V", i + 1, Verdict(Trace[i + 1])>>)
=============================================================================
