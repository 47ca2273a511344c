----------------------------- MODULE BalanceMC -----------------------------
(* The owner map of a GridND as a state machine: greedy rebalancing (heaviest *)
(* domain first, onto a least loaded rank, ties broken arbitrarily) between    *)
(* primary tests, load measurements and decompositions.  Checks the balance    *)
(* bound for every weight vector and tie break, and emits every operation      *)
(* history of length HLEN for replay into the real code.                       *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json
CONSTANTS NR, ND, WMAX, HLEN
VARIABLES assign, w, todo, hist
vars == <<assign, w, todo, hist>>
Ranks == 0 .. NR - 1
Doms == 1 .. ND
Sum(S, f(_)) == FoldSet(LAMBDA x, a : a + f(x), 0, S)
Init == /\ assign = [d \in Doms |-> (d - 1) % NR]
        /\ w = [d \in Doms |-> 0]
        /\ todo = {} /\ hist = <<>>
Idle == todo = {}
Look(op) == /\ Idle /\ Len(hist) < HLEN
            /\ hist' = Append(hist, [op |-> op, w |-> <<>>])
            /\ UNCHANGED <<assign, w, todo>>
Start(v) == /\ Idle /\ Len(hist) < HLEN
            /\ hist' = Append(hist, [op |-> "balance", w |-> v])
            /\ w' = v /\ todo' = Doms /\ assign' = [d \in Doms |-> -1]
LoadOf(q) == Sum({d \in Doms : assign[d] = q}, LAMBDA d : w[d])
Place == /\ ~Idle
         /\ \E d \in todo : /\ \A e \in todo : w[e] < w[d] \/ (w[e] = w[d] /\ e <= d)
                            /\ \E q \in Ranks : /\ \A p \in Ranks : LoadOf(q) <= LoadOf(p)
                                                /\ assign' = [assign EXCEPT ![d] = q]
                            /\ todo' = todo \ {d}
         /\ UNCHANGED <<w, hist>>
Next == \/ \E op \in {"prim", "load", "decomp"} : Look(op)
        \/ \E v \in [Doms -> 0 .. WMAX] : Start(v)
        \/ Place
        \/ (Idle /\ Len(hist) = HLEN /\ UNCHANGED vars)
\* every rank carries at most the mean plus the heaviest single domain
Bound == Idle /\ w # [d \in Doms |-> 0] =>
    \A q \in Ranks : LoadOf(q) * NR <= Sum(Doms, LAMBDA d : w[d]) + NR * Max({w[d] : d \in Doms})
Owned == Idle => \A d \in Doms : assign[d] \in Ranks
\* one history per line, for replay; emitted when the last operation is appended
Emit == (Len(hist) = HLEN /\ Idle) => PrintT("H " \o ToJson(hist))
=============================================================================
