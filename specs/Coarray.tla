------------------------------ MODULE Coarray ------------------------------
(* Co-arrays: every image has a local array; remote reads (pull) and remote    *)
(* writes (push) are queued and take effect at the next synchronisation that   *)
(* includes the remote image.                                                  *)
(* An operation is a record [img, kind, t, loc, rem, val]: issued by img, with *)
(* remote image t, local cells loc and remote cells rem (sequences of equal    *)
(* length); val are the values of a push when it was queued.                   *)
EXTENDS Integers, Sequences, FiniteSets
Last(S) == CHOOSE j \in S : \A x \in S : x <= j
Has(s, e) == \E x \in DOMAIN s : s[x] = e
PosOf(s, e) == CHOOSE x \in DOMAIN s : s[x] = e
\* what cell e of image d may hold after a synchronisation that carries out the
\* operations ops[j], j \in A, started with contents mem (image -> cell -> value):
\* reads see the contents on entry; reads and writes of one origin are applied in
\* issue order; those of different origins are not ordered.
Reads(ops, A, d, e) == {j \in A : ops[j].kind = "pull" /\ ops[j].img = d /\ Has(ops[j].loc, e)}
Writes(ops, A, i, d, e) == {j \in A : ops[j].kind = "push" /\ ops[j].img = i /\ ops[j].t = d /\ Has(ops[j].rem, e)}
\* the data of a write: as it was when queued, or (when it refers to a part of
\* the array) as it is on entry
Datum(op, x, mem) == {op.val[x]} \cup (IF op.loc = <<>> THEN {} ELSE {mem[op.img][op.loc[x]]})
After(ops, A, mem, d, e) ==
  LET R == Reads(ops, A, d, e)
      I == {i \in DOMAIN mem : Writes(ops, A, i, d, e) # {}}
  IN IF R = {} /\ I = {} THEN {mem[d][e]}
     ELSE (IF R = {} THEN {} ELSE LET o == ops[Last(R)] IN {mem[o.t][o.rem[PosOf(o.loc, e)]]})
          \cup UNION {LET o == ops[Last(Writes(ops, A, i, d, e))] IN Datum(o, PosOf(o.rem, e), mem) : i \in I}
=============================================================================
