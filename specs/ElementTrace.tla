---------------------------- MODULE ElementTrace ----------------------------
(* Recorded sequences of collective element reads and writes.                  *)
EXTENDS Element, TraceIO
VARIABLE i
Store(re, im) == [f \in 0 .. Len(re) - 1 |-> <<re[f + 1], im[f + 1]>>]
RECURSIVE Run(_, _, _, _)
\* the store after the first k operations
Run(r, s, v0, k) == IF k = 0 THEN v0
  ELSE LET v == Run(r, s, v0, k - 1) o == r.ops[k]
       IN IF o.op = "get" THEN v
          ELSE IF r.herm THEN SetHerm(v, r.n, s, o.idx, o.part, o.y) ELSE SetReal(v, r.n, s, o.idx, o.y)
Items(r) ==
  IF r.st # "ok" THEN {"completes"}
  ELSE LET s == Stored(r.n, r.half)
           vs == [k \in 0 .. Len(r.ops) |-> Run(r, s, Store(r.re0, r.im0), k)]
           here(k) == InStore(s, Wrap(r.n, r.ops[k].idx))
           \* what a rank is told: the stored value, the same on all ranks
           told(k) == \A q \in DOMAIN r.ops[k].ret : r.ops[k].ret[q] = Get(vs[k], r.n, s, r.ops[k].idx, r.ops[k].part)
           Ks == 1 .. Len(r.ops)
           fin == Store(r.re, r.im)
       IN Failed([
         get |-> \A k \in Ks : (r.ops[k].op = "get" /\ here(k)) => told(k),
         set |-> \A k \in Ks : (r.ops[k].op = "set" /\ here(k)) => told(k),
         store |-> \A f \in DOMAIN fin : fin[f] = vs[Len(r.ops)][f] ,
         size |-> DOMAIN fin = DOMAIN vs[0] /\ Len(r.re) = Vol(s),
         index |-> r.index])
Verdict(r) == CASE r.k = "items" -> Items(r) [] OTHER -> {"unknown-record"}
Init == i = 1
Next == /\ i <= NTrace /\ PrintT(<<"V", i, Verdict(Trace[i])>>) /\ i' = i + 1
=============================================================================
