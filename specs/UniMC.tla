------------------------------- MODULE UniMC -------------------------------
(* The closed form used for grids too wide to list equals the general geometry. *)
EXTENDS Domain
VARIABLES n, h, per, x, s
vars == <<n, h, per, x, s>>
Init == /\ n \in 1 .. 5 /\ h \in 1 .. 3 /\ per \in BOOLEAN
        /\ x \in -20 .. 35 /\ s \in 0 .. 20
Next == UNCHANGED vars
Agrees == UniAgrees(n, h, per, x, s)
=============================================================================
