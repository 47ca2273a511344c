---------------------------- MODULE CoarrayTrace ----------------------------
(* Recorded histories of co-arrays: after every step the contents of all images.*)
EXTENDS Coarray, TraceIO
VARIABLE i
Imgs(r) == 1 .. r.P
Steps(r) == DOMAIN r.steps
Mem(r, k) == r.mem[k]      \* contents before step k (mem[1] is the start)
\* operation j is queued at step At(r, j)
At(r, j) == CHOOSE k \in Steps(r) : r.steps[k].op = "queue" /\ r.steps[k].j = j
Included(r, k, j) == r.steps[k].op = "sync" /\ Has(r.steps[k].L[r.ops[j].img], r.ops[j].t)
Due(r, k) == {j \in DOMAIN r.ops : At(r, j) < k /\ Included(r, k, j) /\ \A m \in At(r, j) + 1 .. k - 1 : ~Included(r, m, j)}
Same(r, k, d) == \A e \in DOMAIN Mem(r, k)[d] : Mem(r, k + 1)[d][e] = Mem(r, k)[d][e]
StepOK(r, k) ==
  LET s == r.steps[k] IN
  CASE s.op = "queue" -> \A d \in Imgs(r) : Same(r, k, d)
    [] s.op = "local" -> \A d \in Imgs(r) : \A e \in DOMAIN Mem(r, k)[d] :
         Mem(r, k + 1)[d][e] = IF d = s.i /\ Has(s.loc, e) THEN s.val[PosOf(s.loc, e)] ELSE Mem(r, k)[d][e]
    [] s.op = "sync" -> LET A == Due(r, k) m == Mem(r, k) IN
         \A d \in Imgs(r) : \A e \in DOMAIN m[d] : Mem(r, k + 1)[d][e] \in After(r.ops, A, m, d, e)
History(r) ==
  IF r.st # "ok" THEN {"completes"}
  ELSE Failed([queue |-> \A k \in Steps(r) : r.steps[k].op = "queue" => StepOK(r, k),
               local |-> \A k \in Steps(r) : r.steps[k].op = "local" => StepOK(r, k),
               sync |-> \A k \in Steps(r) : r.steps[k].op = "sync" => StepOK(r, k),
               num |-> r.num])
Verdict(r) == CASE r.k = "coa" -> History(r) [] OTHER -> {"unknown-record"}
Init == i = 1
Next == /\ i <= NTrace /\ PrintT(<<"V", i, Verdict(Trace[i])>>) /\ i' = i + 1
=============================================================================
