--------------------------- MODULE FieldMemTrace ---------------------------
(* Recorded histories of fields, and recorded visits of applied functions.     *)
EXTENDS FieldMem, Mesh, TraceIO
VARIABLE i
Limit == 4000000
Small(x) == -Limit <= x /\ x <= Limit
Num(v) == v # Unknown /\ Small(v[1]) /\ Small(v[2])
At(a, c) == IF a = <<>> THEN 0 ELSE IF Len(a) = 1 THEN a[1] ELSE a[c]
\* an operand at element c: a field, or an array or number
Opnd(s, a, c) == IF a.f > 0 THEN Val(s, a.f)[c] ELSE <<At(a.re, c), At(a.im, c)>>
Truth(b) == <<IF b THEN 1 ELSE 0, 0>>
Lin(sh, c) == LET x == Coord(sh, c - 1) IN x[1] + (IF Len(x) > 1 THEN 5 * x[2] ELSE 0) + (IF Len(x) > 2 THEN 25 * x[3] ELSE 0) + (IF Len(x) > 3 THEN 125 * x[4] ELSE 0)
Mul(x, y) == IF Abs(x[1]) + Abs(x[2]) > 1400 \/ Abs(y[1]) + Abs(y[2]) > 1400 THEN Unknown
             ELSE <<x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
\* element functions of the values x, y of the operands at element c of a mesh of shape sh
F1(fn, x, sh, c) ==
  CASE fn = "neg" -> <<-x[1], -x[2]>> [] fn = "conj" -> <<x[1], -x[2]>> [] fn = "abs" -> <<Abs(x[1]), 0>>
    [] fn = "whole" -> x [] fn = "square" -> Mul(x, x) [] fn = "zero" -> <<0, 0>>
    [] fn = "lin" -> <<2 * x[1] + Lin(sh, c), 2 * x[2]>>
    [] fn = "plus" -> <<x[1] + Lin(sh, c), x[2]>>
    [] fn = "twice" -> <<2 * x[1], 2 * x[2]>>
    [] fn = "half" -> <<x[1] \div 3, 0>> [] fn = "mod" -> <<x[1] % 3, 0>>
F2(fn, x, y) ==
  CASE fn = "add" -> <<x[1] + y[1], x[2] + y[2]>> [] fn = "sub" -> <<x[1] - y[1], x[2] - y[2]>> [] fn = "mul" -> Mul(x, y)
    [] fn = "max" -> IF x[1] >= y[1] THEN x ELSE y [] fn = "min" -> IF x[1] <= y[1] THEN x ELSE y
    [] fn = "lt" -> Truth(x[1] < y[1]) [] fn = "ge" -> Truth(x[1] >= y[1]) [] fn = "eq" -> Truth(x = y) [] fn = "ne" -> Truth(x # y)
    [] fn = "setre" -> <<y[1], x[2]>> [] fn = "setim" -> <<x[1], y[1]>>
    [] fn = "hyp" -> <<x[1] + 3 * y[1], x[2] + 3 * y[2]>>
Fn(s, st, sh, c) ==
  LET x == Opnd(s, st.args[1], c) IN
  IF st.fn = "id" THEN x
  ELSE IF ~Num(x) THEN Unknown
  ELSE IF Len(st.args) = 1 THEN F1(st.fn, x, sh, c)
  ELSE LET y == Opnd(s, st.args[2], c) IN IF ~Num(y) THEN Unknown ELSE F2(st.fn, x, y)
Clip(v) == IF Num(v) THEN v ELSE Unknown
\* the element function at every element
All(s, st, r, k) == [c \in 1 .. r.vol[k] |-> LET v == Fn(s, st, r.sh[k], c) IN IF st.fn = "id" THEN v ELSE Clip(v)]
Elem(s, st, r) ==
  LET k == st.kind
      v == All(s, st, r, k)
      a == IF st.dst = 0 THEN New(s, k, r.vol) ELSE s
      d == IF st.dst = 0 THEN Len(a.fld) ELSE st.dst
      on == {st.cells[x] : x \in DOMAIN st.cells}
  IN Put(a, d, [c \in 1 .. r.vol[k] |-> IF on = {} \/ c \in on THEN v[c] ELSE Val(a, d)[c]])
Opaque(s, st, r) == IF st.dst = 0 THEN New(s, st.kind, r.vol) ELSE Scramble(s, st.dst)
Do(s, st, r) ==
  CASE st.op = "new" -> New(s, st.kind, r.vol)
    [] st.op = "share" -> Share(s, st.dst, st.kind)
    [] st.op = "elem" -> Elem(s, st, r)
    [] st.op = "opaque" -> Opaque(s, st, r)
    [] st.op = "drop" -> Drop(s, st.dst)
    [] st.op \in {"ask", "total"} -> s
\* what a step was asked for
RECURSIVE Adds(_, _, _)
Adds(v, c, p) == IF c = 0 THEN 0 ELSE v[c][p] + Adds(v, c - 1, p)
Answer(s, st, r) ==
  CASE st.op = "ask" -> LET v == TLCEval(All(s, st, r, st.kind))
                        IN Len(st.res) = Len(v) /\ \A c \in DOMAIN v : v[c] = Unknown \/ <<st.res[c], At(st.resim, c)>> = v[c]
    [] st.op = "total" -> LET v == Val(s, st.args[1].f) IN (\A c \in DOMAIN v : Num(v[c]) /\ Small(100 * v[c][1]) /\ Small(100 * v[c][2])) =>
                             \A x \in DOMAIN st.res : st.res[x] = Adds(v, Len(v), 1) /\ At(st.resim, x) = Adds(v, Len(v), 2)
    [] OTHER -> TRUE
Blame(s, st, f) == IF st.op \in {"drop", "ask", "total", "share"} THEN "independent"
                   ELSE LET d == IF st.dst = 0 THEN Len(s.fld) ELSE st.dst
                        IN IF f = d THEN "value" ELSE IF Buf(s, f) = Buf(s, d) THEN "shared" ELSE "independent"
RECURSIVE Fold(_, _, _)
Fold(s, r, k) ==
  IF k > Len(r.steps) THEN {}
  ELSE LET st == r.steps[k] IN
    IF st.st # "ok" THEN {"completes"}
    ELSE LET t == TLCEval(Do(s, st, r))
             Obs(f, c) == <<st.obs[f][1][c], At(st.obs[f][2], c)>>
             bad == IF st.obs = <<>> THEN {} ELSE Wrong(t, Obs)
             out == {Blame(t, st, f) : f \in bad} \cup (IF Answer(s, st, r) THEN {} ELSE {"answer"}) \cup (IF st.good THEN {} ELSE {"kind"})
         IN IF out # {} THEN out ELSE Fold(IF st.obs = <<>> THEN t ELSE TLCEval(Learn(t, Obs)), r, k + 1)
History(r) == Fold(Empty, r, 1)
(***************************************************************************)
(* A function applied to a field, or an iteration over its slabs.            *)
(***************************************************************************)
Want(r, c, d) == IF r.kind = "index" THEN c[d] ELSE Signed(r.n[d], c[d])
\* recorded coordinates are in thousandths
CoordOk(r, c, d, x) == IF r.kind = "absolute" THEN (x - 1000 * c[d]) % (1000 * r.n[d]) \in {0, 1, 1000 * r.n[d] - 1}
                       ELSE Near(x, 1000 * Want(r, c, d), 1)
RECURSIVE Norm2(_, _, _)
Norm2(r, c, d) == IF d = 0 THEN 0 ELSE Norm2(r, c, d - 1) + LET x == r.unit[d] * Want(r, c, d) IN IF r.p = 2 THEN x * x ELSE Abs(x)
RECURSIVE LinW(_, _, _)
LinW(r, c, d) == IF d = 0 THEN 0 ELSE LinW(r, c, d - 1) + d * Want(r, c, d)
Visits(r) ==
  LET m == Vol(r.sh)
      n == Len(r.seen)
      cc == [f \in 0 .. m - 1 |-> Coord(r.sh, f)]
  IN [once |-> n = m /\ {r.seen[v][1] : v \in 1 .. n} = 1 .. m,
      coordinates |-> \A v \in 1 .. n : LET w == r.seen[v] IN w[1] \in 1 .. m =>
                        \A d \in DOMAIN r.n : CoordOk(r, cc[w[1] - 1], d, w[d + 1]),
      norm |-> r.norms = <<>> \/ \A v \in 1 .. n : LET w == r.seen[v] IN w[1] \in 1 .. m =>
                 LET x == Norm2(r, cc[w[1] - 1], Len(r.n))
                 IN Near(r.norms[v], IF x = 0 /\ r.zero # <<>> THEN 100 * r.zero[1] ELSE 100 * x, r.ntol),
      output |-> r.kind = "absolute" \/ \A f \in 0 .. m - 1 : Near(r.out[f + 1], 100 * (IF r.writes THEN f + 1 + LinW(r, cc[f], Len(r.n)) ELSE f + 1), 1),
      kept |-> r.kept, kind |-> r.good]
Verdict(r) == IF r.k = "hist" THEN History(r) ELSE IF r.st # "ok" THEN {"completes"} ELSE
   CASE r.k = "visits" -> Failed(Visits(r)) [] OTHER -> {"unknown-record"}
Init == i = 1
Next == /\ i <= NTrace /\ PrintT(<<"V", i, Verdict(Trace[i])>>) /\ i' = i + 1
=============================================================================
