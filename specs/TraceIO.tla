------------------------------ MODULE TraceIO ------------------------------
(* Reading recorded behaviours and reporting one verdict per record.          *)
(* A verdict is the set of names of the violated clauses; the empty set means *)
(* that the record is a behaviour of the specification.                       *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
NTrace == Len(Trace)
\* names of the clauses of a record of booleans that do not hold
Failed(cl) == {k \in DOMAIN cl : ~cl[k]}
=============================================================================
