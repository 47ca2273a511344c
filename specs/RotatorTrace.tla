---------------------------- MODULE RotatorTrace -----------------------------
(* Recorded turns: the events of all ranks in the order in which they happened.*)
EXTENDS Integers, TraceIO
VARIABLE i
\* what the model allows: turn after turn, every rank of each group enters and leaves, in order
RECURSIVE Expect(_, _)
Expect(t, m) == IF t = 0 THEN <<>> ELSE Expect(t - 1, m) \o [k \in 1 .. 2 * m |-> <<t - 1, (k - 1) \div 2, (k - 1) % 2>>]
Turns(r) == IF r.st # "ok" THEN {"completes"}
            ELSE Failed([order |-> r.ev = Expect(r.turns, r.size), outcome |-> r.raised = r.asked, usable |-> r.usable])
Root(r) == IF r.st # "ok" THEN {"completes"}
           ELSE Failed([once |-> r.calls = [k \in 1 .. r.size |-> IF k = 1 THEN r.times ELSE 0],
                        result |-> \A k \in DOMAIN r.got : r.got[k] = r.want, arguments |-> r.args])
Verdict(r) == CASE r.k = "turns" -> Turns(r) [] r.k = "fromroot" -> Root(r) [] OTHER -> {"unknown-record"}
Init == i = 0
Next == i < NTrace /\ i' = i + 1 /\ PrintT(<<"V", i + 1, Verdict(Trace[i + 1])>>)
=============================================================================
