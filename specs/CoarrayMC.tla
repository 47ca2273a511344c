----------------------------- MODULE CoarrayMC -----------------------------
(* The message protocol of one synchronisation: every image posts its queued  *)
(* operations (nonblocking receives for reads, nonblocking sends for writes), *)
(* then answers the reads of the others with blocking sends, then receives    *)
(* the writes of the others, then waits.  Messages between a pair of images   *)
(* with the same tag do not overtake each other.  A blocking send may or may  *)
(* not wait for the receiver (Rendezvous).  Every operation must get its own  *)
(* data and everybody must finish.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NI, NOPS, TagRead, TagWrite, Rendezvous
VARIABLES prog, pc, wait, msgs, recvs, got
vars == <<prog, pc, wait, msgs, recvs, got>>
Imgs == 0 .. NI - 1
OpSet == {<<k, t>> : k \in {"pull", "push"}, t \in Imgs}
Progs == UNION {[1 .. n -> OpSet] : n \in 0 .. NOPS}
\* what image i executes, in order: steps <<what, peer, tag, label>>
Label(i, n) == <<i, n>>
Own(i) == [n \in DOMAIN prog[i] |-> IF prog[i][n][1] = "pull" THEN <<"irecv", prog[i][n][2], TagRead, Label(i, n)>>
                                                             ELSE <<"isend", prog[i][n][2], TagWrite, Label(i, n)>>]
RECURSIVE Others(_, _, _, _)
Others(i, kind, j, n) ==
  IF j = NI THEN <<>>
  ELSE IF n > Len(prog[j]) THEN Others(i, kind, j + 1, 1)
  ELSE (IF prog[j][n] = <<kind, i>> THEN << <<IF kind = "pull" THEN "send" ELSE "recv", j, IF kind = "pull" THEN TagRead ELSE TagWrite, Label(j, n)>> >> ELSE <<>>)
       \o Others(i, kind, j, n + 1)
Steps(i) == Own(i) \o Others(i, "pull", 0, 1) \o Others(i, "push", 0, 1)
Init == /\ prog \in [Imgs -> Progs]
        /\ pc = [i \in Imgs |-> 1] /\ wait = [i \in Imgs |-> FALSE]
        /\ msgs = <<>> /\ recvs = <<>> /\ got = {}
\* matching: the oldest message of the pair and tag meets the oldest receive
Del(s, x) == [y \in 1 .. Len(s) - 1 |-> IF y < x THEN s[y] ELSE s[y + 1]]
FirstIdx(s, a, b, tag) == LET X == {x \in DOMAIN s : s[x][1] = a /\ s[x][2] = b /\ s[x][3] = tag}
                          IN IF X = {} THEN 0 ELSE CHOOSE x \in X : \A y \in X : x <= y
Put(i, s) == \* message i -> s[2]
  LET x == FirstIdx(recvs, i, s[2], s[3])
  IN IF x = 0 THEN /\ msgs' = Append(msgs, <<i, s[2], s[3], s[4]>>) /\ UNCHANGED <<recvs, got>>
     ELSE /\ recvs' = Del(recvs, x) /\ got' = got \cup {<<recvs[x][4], s[4]>>} /\ UNCHANGED msgs
Get(i, s) == \* receive s[2] -> i
  LET x == FirstIdx(msgs, s[2], i, s[3])
  IN IF x = 0 THEN /\ recvs' = Append(recvs, <<s[2], i, s[3], s[4]>>) /\ UNCHANGED <<msgs, got>>
     ELSE /\ msgs' = Del(msgs, x) /\ got' = got \cup {<<s[4], msgs[x][4]>>} /\ UNCHANGED recvs
SentUnmatched(i, l) == \E x \in DOMAIN msgs : msgs[x][1] = i /\ msgs[x][4] = l
RecvUnmatched(i, l) == \E x \in DOMAIN recvs : recvs[x][2] = i /\ recvs[x][4] = l
Step(i) ==
  /\ pc[i] <= Len(Steps(i))
  /\ LET s == Steps(i)[pc[i]]
         sending == s[1] \in {"isend", "send"}
         blocked == IF s[1] = "send" THEN Rendezvous /\ SentUnmatched(i, s[4]) ELSE s[1] = "recv" /\ RecvUnmatched(i, s[4])
     IN IF wait[i]
        THEN /\ ~blocked /\ pc' = [pc EXCEPT ![i] = @ + 1] /\ wait' = [wait EXCEPT ![i] = FALSE] /\ UNCHANGED <<msgs, recvs, got>>
        ELSE /\ (IF sending THEN Put(i, s) ELSE Get(i, s))
             /\ IF s[1] \in {"send", "recv"} THEN wait' = [wait EXCEPT ![i] = TRUE] /\ UNCHANGED pc
                                             ELSE pc' = [pc EXCEPT ![i] = @ + 1] /\ UNCHANGED wait
  /\ UNCHANGED prog
Ended == \A i \in Imgs : pc[i] > Len(Steps(i))
Next == (\E i \in Imgs : Step(i)) \/ (Ended /\ UNCHANGED vars)
\* every operation gets its own data
Right == \A g \in got : g[1] = g[2]
Complete == Ended => msgs = <<>> /\ recvs = <<>> /\ Cardinality(got) = Cardinality(UNION {{<<i, n>> : n \in DOMAIN prog[i]} : i \in Imgs})
=============================================================================
