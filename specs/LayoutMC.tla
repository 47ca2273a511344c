------------------------------ MODULE LayoutMC ------------------------------
(* Design model of Layout: how a table "particle -> set of ranks" becomes      *)
(* deliveries and how gather brings the copies back, for every table and every *)
(* order in which the messages of a collective complete.  Each rank also may   *)
(* hold data that does not fit the layout ("bad"); the error must be raised on *)
(* every rank, and nobody may be left waiting.                                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
CONSTANTS NR, MAXP, FAULTS
Ranks == 0 .. NR - 1
VARIABLES tg, bad, pc, recv, inflight, back, flags
vars == <<tg, bad, pc, recv, inflight, back, flags>>

Tables == UNION {[1 .. k -> SUBSET Ranks] : k \in 0 .. MAXP}

\* what rank s sends to rank q: its particles touching q, in their order
Chunk(s, q) == SelectSeq([p \in 1 .. Len(tg[s]) |-> <<s, p>>], LAMBDA x : q \in tg[s][x[2]])

Init == /\ tg \in [Ranks -> Tables]
        /\ bad \in (IF FAULTS THEN SUBSET Ranks ELSE {{}})
        /\ pc = [q \in Ranks |-> "check"]
        /\ recv = [q \in Ranks |-> [s \in Ranks |-> <<>>]]
        /\ back = [q \in Ranks |-> [s \in Ranks |-> <<>>]]
        /\ inflight = {}
        /\ flags = [q \in Ranks |-> FALSE]

\* publish the local mismatch flag, then wait for everybody's
Publish(q) == /\ pc[q] = "check"
              /\ flags' = [flags EXCEPT ![q] = q \in bad]
              /\ pc' = [pc EXCEPT ![q] = "agree"]
              /\ UNCHANGED <<tg, bad, recv, inflight, back>>

Agree(q) == /\ pc[q] = "agree"
            /\ \A s \in Ranks : pc[s] # "check"
            /\ pc' = [pc EXCEPT ![q] = IF \E s \in Ranks : flags[s] THEN "raised" ELSE "send"]
            /\ UNCHANGED <<tg, bad, recv, inflight, back, flags>>

Send(q) == /\ pc[q] = "send"
           /\ inflight' = inflight \cup {<<"x", q, d, Chunk(q, d)>> : d \in Ranks}
           /\ pc' = [pc EXCEPT ![q] = "recv"]
           /\ UNCHANGED <<tg, bad, recv, back, flags>>

Deliver(m) == /\ m[1] = "x" /\ pc[m[3]] = "recv"
              /\ recv' = [recv EXCEPT ![m[3]][m[2]] = m[4]]
              /\ inflight' = inflight \ {m}
              /\ UNCHANGED <<tg, bad, pc, back, flags>>

\* a collective returns on q once everything addressed to q has arrived
Return(q) == /\ pc[q] = "recv"
             /\ \A s \in Ranks : pc[s] \notin {"check", "agree", "send"}
             /\ ~ \E m \in inflight : m[1] = "x" /\ m[3] = q
             /\ pc' = [pc EXCEPT ![q] = "reply"]
             /\ UNCHANGED <<tg, bad, recv, inflight, back, flags>>

Reply(q) == /\ pc[q] = "reply"
            /\ inflight' = inflight \cup {<<"g", q, d, [k \in DOMAIN recv[q][d] |-> <<q, recv[q][d][k]>>]>> : d \in Ranks}
            /\ pc' = [pc EXCEPT ![q] = "collect"]
            /\ UNCHANGED <<tg, bad, recv, back, flags>>

Collect(m) == /\ m[1] = "g" /\ pc[m[3]] = "collect"
              /\ back' = [back EXCEPT ![m[3]][m[2]] = m[4]]
              /\ inflight' = inflight \ {m}
              /\ UNCHANGED <<tg, bad, pc, recv, flags>>

Done(q) == /\ pc[q] = "collect"
           /\ \A s \in Ranks : pc[s] \in {"collect", "done"}
           /\ ~ \E m \in inflight : m[1] = "g" /\ m[3] = q
           /\ pc' = [pc EXCEPT ![q] = "done"]
           /\ UNCHANGED <<tg, bad, recv, inflight, back, flags>>

Terminal == \A q \in Ranks : pc[q] \in {"raised", "done"}
Next == \/ \E q \in Ranks : Publish(q) \/ Agree(q) \/ Send(q) \/ Return(q) \/ Reply(q) \/ Done(q)
        \/ \E m \in inflight : Deliver(m) \/ Collect(m)
        \/ (Terminal /\ UNCHANGED vars)

\* ---------------------------------------------------------------- properties
RECURSIVE Cat(_, _)
Cat(f, s) == IF s < 0 THEN <<>> ELSE Cat(f, s - 1) \o f[s]
Received(q) == Cat(recv[q], NR - 1)
Gathered(q) == Cat(back[q], NR - 1)

AllRaiseOrNone == Terminal => \/ (bad = {} /\ \A q \in Ranks : pc[q] = "done")
                              \/ (bad # {} /\ \A q \in Ranks : pc[q] = "raised")

IdLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Exchanged(q) == pc[q] \in {"reply", "collect", "done"}
Complete == \A q \in Ranks : Exchanged(q) =>
   {Received(q)[k] : k \in DOMAIN Received(q)} = UNION {{<<s, p>> : p \in {x \in 1 .. Len(tg[s]) : q \in tg[s][x]}} : s \in Ranks}
InOrder == \A q \in Ranks : Exchanged(q) => \A a \in 1 .. Len(Received(q)) - 1 : IdLess(Received(q)[a], Received(q)[a + 1])

\* every copy comes home exactly once, labelled by the rank it came from
RoundTrip == \A q \in Ranks : pc[q] = "done" =>
   /\ Len(Gathered(q)) = SumSet({0}) + FoldLeft(LAMBDA acc, x : acc + Cardinality(x), 0, tg[q])
   /\ \A p \in 1 .. Len(tg[q]) :
        {Gathered(q)[k][1] : k \in {z \in DOMAIN Gathered(q) : Gathered(q)[z][2] = <<q, p>>}} = tg[q][p]
   /\ \A k \in DOMAIN Gathered(q) : Gathered(q)[k][2][1] = q
=============================================================================
