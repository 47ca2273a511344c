---------------------------- MODULE ViewsTrace ------------------------------
(* Recorded global views of fields.                                            *)
EXTENDS Views, TraceIO
VARIABLE i
\* parts: what every rank returned
Ravel(r) == LET p == Parts(r.blocks, r.s) IN
   [tiles |-> Tiles(r.blocks, r.s), sequence |-> r.parts = p, kept |-> r.kept, place |-> r.place]
RECURSIVE Concat(_, _)
Concat(ss, k) == IF k = 0 THEN <<>> ELSE Concat(ss, k - 1) \o ss[k]
\* parts: what every rank gave
Unravel(r) == LET w == Concat(r.parts, Len(r.parts)) IN
   [tiles |-> Tiles(r.blocks, r.s),
    rebuilt |-> Len(w) = Vol(r.s) /\ Deal(r.blocks, r.s, w) = r.blocks, kept |-> r.kept, place |-> r.place]
\* outs: every rank's result, row-major
Preview(r) == LET p == Project(Whole(r.blocks, r.s), r.s, r.axes) IN
   [sum |-> \A k \in DOMAIN r.outs : Len(r.outs[k]) = Len(p) /\ \A f \in DOMAIN p : Near(r.outs[k][f], p[f] * r.scale, r.tol),
    shape |-> \A k \in DOMAIN r.shapes : r.shapes[k] = Kept(r.s, r.axes), kept |-> r.kept, place |-> r.place]
Transpose(r) == LET t == Kept(r.s, r.axes) IN
   [mesh |-> r.t = t, box |-> r.boxout = Kept(r.boxin, r.axes),
    value |-> r.t = t /\ Tiles(r.blocksout, t) /\ Whole(r.blocksout, t) = Turn(Whole(r.blocks, r.s), r.s, r.axes),
    kept |-> r.kept, place |-> r.place]
Verdict(r) == IF r.st # "ok" THEN {"completes"} ELSE
   CASE r.k = "ravel" -> Failed(Ravel(r)) [] r.k = "unravel" -> Failed(Unravel(r))
     [] r.k = "preview" -> Failed(Preview(r)) [] r.k = "transpose" -> Failed(Transpose(r)) [] OTHER -> {"unknown-record"}
Init == i = 1
Next == /\ i <= NTrace /\ PrintT(<<"V", i, Verdict(Trace[i])>>) /\ i' = i + 1
=============================================================================
