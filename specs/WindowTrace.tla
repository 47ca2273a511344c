---------------------------- MODULE WindowTrace ----------------------------
(* Recorded paints and readouts against the exact window.                      *)
EXTENDS Window, TraceIO, FiniteSetsExt, SequencesExt
VARIABLE i

ND(r) == Len(r.size)
\* row-major cells of the local mesh
RECURSIVE NCellsN(_, _)
NCellsN(s, d) == IF d = 0 THEN 1 ELSE NCellsN(s, d - 1) * s[d]
NCells(r) == NCellsN(r.size, ND(r))
RECURSIVE CoordN(_, _, _)
\* coordinates of flat cell k (0-based), as a sequence
CoordN(s, d, k) == IF d = 0 THEN <<>> ELSE Append(CoordN(s, d - 1, k \div s[d]), k % s[d])
Coord(r, k) == CoordN(r.size, ND(r), k)

Conv == 33      \* not a spline: the cubic convolution of the older painter
Rows(r, q) ==
  [d \in 1 .. ND(r) |-> IF r.p = Conv THEN ConvRow(r.Q, r.g[q][d], r.size[d], r.period[d])
                        ELSE AxisRow(r.p, r.Q, r.P[q], d = r.diff, r.sn[d], r.g[q][d], r.size[d], r.period[d], r.D[d])]
RECURSIVE ProdN(_, _, _)
ProdN(rows, c, d) == IF d = 0 THEN 1 ELSE ProdN(rows, c, d - 1) * rows[d][c[d]]
DT(r) == NCellsN(r.D, ND(r))

WellFormed(r) == IF r.p = Conv THEN \A d \in 1 .. ND(r) : r.D[d] = 2 * r.Q * r.Q * r.Q ELSE \A d \in 1 .. ND(r) : \A q \in DOMAIN r.g : DividesAxis(r.p, r.Q, r.P[q], d = r.diff, r.D[d])

Near(a, b, tol) == IF (a >= 0) = (b >= 0) THEN Abs(a - b) <= tol ELSE Abs(a) <= tol /\ Abs(b) <= tol /\ Abs(a) + Abs(b) <= tol

\* the mesh after painting: what was there plus every particle's deposit
PaintCells(r) ==
  LET rows == [q \in DOMAIN r.g |-> Rows(r, q)]
      n == Len(r.g)
      dep(c) == LET RECURSIVE S(_)
                    S(q) == IF q = 0 THEN 0
                            ELSE S(q - 1) + (IF r.mass[q] = 0 THEN 0 ELSE r.mass[q] * ProdN(rows[q], c, ND(r)))
                IN S(n)
  IN \A k \in 0 .. NCells(r) - 1 : Near(r.out[k + 1], r.init[k + 1] * DT(r) + dep(Coord(r, k)), r.tol)

Paint(r) ==
  IF r.st # "ok" THEN {"completes"}
  ELSE IF ~WellFormed(r) THEN {"ill-formed"}
  ELSE Failed([deposit |-> PaintCells(r), outside |-> r.outside, inputs |-> r.inputs])

\* the value read at each position: the sum of cells times weights
ReadCells(r) ==
  \A q \in DOMAIN r.g :
    LET rows == Rows(r, q)
        RECURSIVE S(_)
        S(k) == IF k < 0 THEN 0
                ELSE S(k - 1) + (IF r.init[k + 1] = 0 THEN 0 ELSE r.init[k + 1] * ProdN(rows, Coord(r, k), ND(r)))
    IN Near(r.out[q], S(NCells(r) - 1), r.tol)
Read(r) ==
  IF r.st # "ok" THEN {"completes"}
  ELSE IF ~WellFormed(r) THEN {"ill-formed"}
  ELSE Failed([value |-> Len(r.out) = Len(r.g) /\ ReadCells(r), outside |-> r.outside, inputs |-> r.inputs])

\* sums of deposits and readouts with derivatives along different axes
RowsD(r, q, df) ==
  [d \in 1 .. ND(r) |-> AxisRow(r.p, r.Q, r.P[q], d = df, r.sn[d], r.g[q][d], r.size[d], r.period[d], r.D[d])]
SumsFormed(r) == \A t \in DOMAIN r.terms : \A d \in 1 .. ND(r) : \A q \in DOMAIN r.g : DividesAxis(r.p, r.Q, r.P[q], d = r.terms[t].diff, r.D[d])
PaintSum(r) ==
  IF r.st # "ok" THEN {"completes"} ELSE IF ~SumsFormed(r) THEN {"ill-formed"}
  ELSE LET rows == [t \in DOMAIN r.terms |-> [q \in DOMAIN r.g |-> RowsD(r, q, r.terms[t].diff)]]
           one(t, c) == LET RECURSIVE S(_)
                            S(q) == IF q = 0 THEN 0
                                    ELSE S(q - 1) + (IF r.terms[t].m[q] = 0 THEN 0 ELSE r.terms[t].m[q] * ProdN(rows[t][q], c, ND(r)))
                        IN S(Len(r.g))
           all(c) == LET RECURSIVE T(_)
                         T(t) == IF t = 0 THEN 0 ELSE T(t - 1) + one(t, c)
                     IN T(Len(r.terms))
       IN Failed([value |-> \A k \in 0 .. NCells(r) - 1 : Near(r.out[k + 1], all(Coord(r, k)), r.tol), kept |-> r.kept, inputs |-> r.inputs])
ReadSum(r) ==
  IF r.st # "ok" THEN {"completes"} ELSE IF ~SumsFormed(r) THEN {"ill-formed"}
  ELSE LET one(t, q) == LET rows == RowsD(r, q, r.terms[t].diff)
                            w == r.terms[t].mesh
                            RECURSIVE S(_)
                            S(k) == IF k < 0 THEN 0 ELSE S(k - 1) + (IF w[k + 1] = 0 THEN 0 ELSE w[k + 1] * ProdN(rows, Coord(r, k), ND(r)))
                        IN IF r.terms[t].m[q] = 0 THEN 0 ELSE r.terms[t].m[q] * S(NCells(r) - 1)
           all(q) == LET RECURSIVE T(_)
                         T(t) == IF t = 0 THEN 0 ELSE T(t - 1) + one(t, q)
                     IN T(Len(r.terms))
       IN Failed([value |-> Len(r.out) = Len(r.g) /\ \A q \in DOMAIN r.g : Near(r.out[q], all(q), r.tol), kept |-> r.kept, inputs |-> r.inputs])
SumSeq(s) == FoldSeq(LAMBDA a, b : a + b, 0, s)
\* two sums that must be equal
Pairing(r) == IF r.st # "ok" THEN {"completes"} ELSE Failed([adjoint |-> Near(SumSeq(r.lhs), SumSeq(r.rhs), r.tol)])

\* ---------------------------------------------------------------- relations
\* values are recorded as integers in units of 2^-24 (relative to the case scale)
SameSeq(a, b, tol) == Len(a) = Len(b) /\ \A k \in DOMAIN a : Near(a[k], b[k], tol)

\* paint(delta mass)[cell] = readout(delta mesh at cell), for every cell
Transpose(r) == Failed([transpose |-> SameSeq(r.paint, r.read, r.tol), inputs |-> r.inputs])

\* two implementations of the same thing
Agree(r) == Failed([agree |-> \A v \in 2 .. Len(r.v) : SameSeq(r.v[1], r.v[v], r.tol)])

\* conservation on a fully periodic mesh: total is the mass (or zero for derivatives)
Conserve(r) == Failed([
   total    |-> Near(SumSeq(r.out), r.total, r.tol * Len(r.out)),
   positive |-> r.diff \/ r.masssign < 0 \/ \A k \in DOMAIN r.out : r.out[k] >= -r.tol])

\* moving a particle by whole cells moves its deposit by whole cells
ShiftOk(r) ==
  LET n == NCells(r)
      \* flat index of the cell that c is moved to
      RECURSIVE FlatTo(_, _)
      FlatTo(c, d) == IF d = 0 THEN 0 ELSE FlatTo(c, d - 1) * r.size[d] + ((c[d] + r.by[d]) % r.size[d])
  IN Failed([shift |-> \A k \in 0 .. n - 1 : Near(r.b[FlatTo(Coord(r, k), ND(r)) + 1], r.a[k + 1], r.tol)])

\* permuting the axes of the position permutes the axes of the deposit
SwapOk(r) ==
  LET n == NCells(r)
      RECURSIVE FlatP(_, _)
      FlatP(c, d) == IF d = 0 THEN 0 ELSE FlatP(c, d - 1) * r.size[r.perm[d]] + c[r.perm[d]]
  IN Failed([swap |-> \A k \in 0 .. n - 1 : Near(r.b[FlatP(Coord(r, k), ND(r)) + 1], r.a[k + 1], r.tol)])

\* a window of support P/2 around g/Q touches only cells closer than P/4
Support(r) == Failed([
   support |-> \A k \in DOMAIN r.out : r.out[k] # 0 => 4 * Abs(r.g - (r.first + k - 1) * r.Q) <= r.P * r.Q,
   meta    |-> r.meta])

\* the deposit of a product window is the product of its one-dimensional deposits
\* (all values in units of 1 / unit)
ProductOk(r) ==
  Failed([product |-> \A k \in 0 .. NCells(r) - 1 :
     LET c == Coord(r, k)
         RECURSIVE P(_)
         P(d) == IF d = 0 THEN r.unit ELSE (P(d - 1) * r.rows[d][c[d] + 1]) \div r.unit
     IN Near(r.out[k + 1], P(ND(r)), r.tol)])

\* within one piece of a tabulated (piecewise linear) kernel, the derivative is the
\* difference quotient: (k1 - k0) * den = diff, in units of 2^-10
Slope(r) == Failed([slope |-> \A k \in DOMAIN r.k0 : Near((r.k1[k] - r.k0[k]), r.df[k], r.tol)])

\* Fourier window of the spline of order p at w/2 = k pi/4: sinc^(p+1), in units of 10^-4
Sinc == <<10000, 9003, 6366, 3001, 0, -1801, -2122, -1286, 0>>
RECURSIVE PowS(_, _)
PowS(x, e) == IF e = 1 THEN x ELSE (PowS(x, e - 1) * x) \div 10000
FWindow(r) == Failed([
   fwindow      |-> r.form /\ \A j \in DOMAIN r.ks : Near(r.t[j], PowS(Sinc[r.ks[j] + 1], r.p + 1), 6),
   compensation |-> r.comp])

\* -------------------------------------------------- meshes of another size
\* upsampling reads the source at the points of the target; downsampling deposits
\* every source cell at its place on the target
Resize(r) ==
  LET a == IF r.up THEN r.n ELSE r.m       \* the mesh with the window
      b == IF r.up THEN r.m ELSE r.n       \* the mesh of the points
      rows == [d \in 1 .. r.nd |-> [j \in 0 .. b[d] - 1 |->
                 AxisRow(r.p, r.Q, 2 * (r.p + 1), FALSE, 4, (j * a[d] * r.Q) \div b[d], a[d], a[d], r.D)]]
      RECURSIVE W(_, _, _)
      W(pt, c, d) == IF d = 0 THEN 1 ELSE W(pt, c, d - 1) * rows[d][pt[d]][c[d]]
      nsrc == NCellsN(r.n, r.nd)
      num == r.cs[1] * r.cm[2]
      den == r.cs[2] * r.cm[1]
      fac == IF r.up THEN (IF r.keep THEN r.unit ELSE (r.unit * num) \div den)
             ELSE (IF r.keep THEN (r.unit * den) \div num ELSE r.unit)
      val(k) == LET c == CoordN(r.m, r.nd, k)
                    RECURSIVE S(_)
                    S(j) == IF j < 0 THEN 0
                            ELSE LET z == CoordN(r.n, r.nd, j) IN
                                 S(j - 1) + (IF r.vals[j + 1] = 0 THEN 0 ELSE r.vals[j + 1] * (IF r.up THEN W(c, z, r.nd) ELSE W(z, c, r.nd)))
                IN S(nsrc - 1)
  IN IF r.st # "ok" THEN {"completes"}
     ELSE IF \E d \in 1 .. r.nd : \E j \in 0 .. b[d] - 1 : (j * a[d] * r.Q) % b[d] # 0 THEN {"ill-formed"}
     ELSE Failed([resize |-> Len(r.out) = NCellsN(r.m, r.nd) /\ \A k \in 0 .. NCellsN(r.m, r.nd) - 1 : Near(r.out[k + 1], val(k) * fac, r.tol),
                  source |-> r.unchanged])

\* ------------------------------------------ the older cloud-in-cell routines
\* does the particle q reach outside the mesh, counting cells of no weight or not
Leaves(r, q, all) ==
  LET lo == IF r.p = Conv THEN 1 ELSE 0 IN
  \E d \in 1 .. ND(r) : \E c \in (Floor(r.g[q][d], r.Q) - lo) .. (Floor(r.g[q][d], r.Q) + 1 + lo) :
     LET f == Fold(c, r.period[d])
         w == IF r.p = Conv THEN CubicConv(r.Q, r.g[q][d] - c * r.Q) # 0 ELSE c * r.Q <= r.g[q][d] \/ r.g[q][d] % r.Q # 0
     IN (f < 0 \/ f >= r.size[d]) /\ (all \/ w)
Cic(r) ==
  LET res == IF r.what = "paint" THEN Paint(r) ELSE Read(r)
  IN IF r.mode = "raise" /\ \E q \in DOMAIN r.g : Leaves(r, q, FALSE) THEN (IF r.st = "ok" THEN {"rejects"} ELSE {})
     ELSE IF r.mode = "raise" /\ \E q \in DOMAIN r.g : Leaves(r, q, TRUE) THEN (IF r.st = "ok" THEN res ELSE {})
     ELSE res
Verdict(r) ==
  CASE r.k = "cic" -> Cic(r)
    [] r.k = "paintsum" -> PaintSum(r)
    [] r.k = "readsum" -> ReadSum(r)
    [] r.k = "pairing" -> Pairing(r)
    [] r.k = "paint" -> Paint(r)
    [] r.k = "read" -> Read(r)
    [] r.k = "transpose" -> Transpose(r)
    [] r.k = "agree" -> Agree(r)
    [] r.k = "conserve" -> Conserve(r)
    [] r.k = "shift" -> ShiftOk(r)
    [] r.k = "swap" -> SwapOk(r)
    [] r.k = "support" -> Support(r)
    [] r.k = "product" -> ProductOk(r)
    [] r.k = "slope" -> Slope(r)
    [] r.k = "fwindow" -> FWindow(r)
    [] r.k = "resize" -> Resize(r)
                [] OTHER -> {"unknown-record"}
Init == i = 0
Next == i < NTrace /\ i' = i + 1 /\ PrintT(<<"V", i + 1, Verdict(Trace[i + 1])>>)
=============================================================================
