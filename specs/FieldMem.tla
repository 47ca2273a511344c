------------------------------ MODULE FieldMem ------------------------------
(* Fields over shared memory.  A field is a kind of view of a buffer; fields   *)
(* built on the same memory share the buffer.  The contents of a buffer are    *)
(* kept per kind: writing through one kind defines that kind's view and makes  *)
(* the views of the other kinds unknown.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Unknown == <<>>
Empty == [fld |-> <<>>, mem |-> <<>>]
\* vol: number of elements of every kind
Blank(vol) == [k \in DOMAIN vol |-> [c \in 1 .. vol[k] |-> Unknown]]
Buf(s, f) == s.fld[f].buf
Kind(s, f) == s.fld[f].kind
Val(s, f) == s.mem[Buf(s, f)][Kind(s, f)]
Drop(s, f) == [s EXCEPT !.fld[f].live = FALSE]
Live(s) == {f \in DOMAIN s.fld : s.fld[f].live}
New(s, k, vol) == [fld |-> Append(s.fld, [buf |-> Len(s.mem) + 1, kind |-> k, live |-> TRUE]), mem |-> Append(s.mem, Blank(vol))]
Share(s, f, k) == [s EXCEPT !.fld = Append(@, [buf |-> Buf(s, f), kind |-> k, live |-> TRUE])]
Put(s, f, v) == [s EXCEPT !.mem[Buf(s, f)] = [k \in DOMAIN @ |-> IF k = Kind(s, f) THEN v ELSE [c \in DOMAIN @[k] |-> Unknown]]]
Scramble(s, f) == Put(s, f, [c \in DOMAIN Val(s, f) |-> Unknown])
\* what is unknown becomes whatever is there; it has to stay so
Learn(s, obs(_, _)) ==
  LET fs(b, k) == {f \in Live(s) : Buf(s, f) = b /\ Kind(s, f) = k}
  IN [s EXCEPT !.mem = [b \in DOMAIN @ |-> [k \in DOMAIN @[b] |->
        IF fs(b, k) = {} THEN @[b][k]
        ELSE LET f == CHOOSE f \in fs(b, k) : TRUE
             IN [c \in DOMAIN @[b][k] |-> IF @[b][k][c] = Unknown THEN obs(f, c) ELSE @[b][k][c]]]]]
\* fields whose known contents are not the observed ones
Wrong(s, obs(_, _)) == {f \in Live(s) : \E c \in DOMAIN Val(s, f) : Val(s, f)[c] # Unknown /\ Val(s, f)[c] # obs(f, c)}
=============================================================================
