---------------------------- MODULE CoarrayHist ----------------------------
(* The co-array as a state machine over abstract cells; enumerates histories   *)
(* of queueing, local writes and (partial) synchronisations for replay.        *)
EXTENDS Coarray, TLC, Json
CONSTANTS NI, NC, HLEN
VARIABLES mem, ops, done, hist
vars == <<mem, ops, done, hist>>
Imgs == 0 .. NI - 1
Cells == 1 .. NC
Init == /\ mem = [i \in Imgs |-> [c \in Cells |-> 10 * i + c]] /\ ops = <<>> /\ done = {} /\ hist = <<>>
Queue(i, k, t, a, b) ==
  /\ ops' = Append(ops, [img |-> i, kind |-> k, t |-> t, loc |-> <<a>>, rem |-> <<b>>, val |-> <<mem[i][a]>>])
  /\ UNCHANGED <<mem, done>>
  /\ hist' = Append(hist, [op |-> k, i |-> i, t |-> t, a |-> a, b |-> b, L |-> <<>>])
Local(i, c) ==
  /\ mem' = [mem EXCEPT ![i][c] = 100 + Len(hist)] /\ UNCHANGED <<ops, done>>
  /\ hist' = Append(hist, [op |-> "local", i |-> i, t |-> 0, a |-> c, b |-> c, L |-> <<>>])
Pending == DOMAIN ops \ done
Due(L) == {j \in Pending : ops[j].t \in L[ops[j].img]}
Sync(L) ==
  LET A == Due(L)
  IN /\ mem' \in [Imgs -> [Cells -> {mem[i][c] : i \in Imgs, c \in Cells} \cup UNION {{ops[j].val[1]} : j \in DOMAIN ops}]]
     /\ \A d \in Imgs, e \in Cells : mem'[d][e] \in After(ops, A, mem, d, e)
     /\ done' = done \cup A /\ UNCHANGED ops
     /\ hist' = Append(hist, [op |-> "sync", i |-> 0, t |-> 0, a |-> 0, b |-> 0, L |-> [i \in 1 .. NI |-> L[i - 1]]])
\* for the enumeration the contents are irrelevant
SyncH(L) == /\ done' = done \cup Due(L) /\ UNCHANGED <<mem, ops>>
            /\ hist' = Append(hist, [op |-> "sync", i |-> 0, t |-> 0, a |-> 0, b |-> 0, L |-> [i \in 1 .. NI |-> L[i - 1]]])
Lists == {[i \in Imgs |-> Imgs]} \cup {[i \in Imgs |-> {k}] : k \in Imgs} \cup {[i \in Imgs |-> IF i = k THEN Imgs ELSE {}] : k \in Imgs}
Common == \/ \E i, t \in Imgs, a, b \in Cells, k \in {"pull", "push"} : Queue(i, k, t, a, b)
          \/ \E i \in Imgs, c \in Cells : Local(i, c)
Next == IF Len(hist) = HLEN THEN UNCHANGED vars ELSE Common \/ \E L \in Lists : Sync(L)
NextH == IF Len(hist) = HLEN THEN UNCHANGED vars ELSE Common \/ \E L \in Lists : SyncH(L)
\* a cell nobody addressed keeps its value; done operations stay done; a full
\* synchronisation leaves nothing pending
Quiet == [][(hist' # hist /\ hist'[Len(hist')].op \in {"pull", "push"}) => mem' = mem]_vars
Drained == (hist # <<>> /\ hist[Len(hist)].op = "sync" /\ \A i \in DOMAIN hist[Len(hist)].L : hist[Len(hist)].L[i] = Imgs) => Pending = {}
\* only values that were somewhere at some time appear
Known == \A i \in Imgs, c \in Cells : mem[i][c] \in {10 * x + y : x \in Imgs, y \in Cells} \cup {100 + n : n \in 0 .. HLEN}
\* something happens, and one operation of each image at most is left to the final sync
Emit == (Len(hist) = HLEN /\ \E k \in DOMAIN hist : hist[k].op \in {"pull", "push"}) => PrintT("H " \o ToJson(hist))
=============================================================================
