CONSTANTS NI = 2
 NOPS = 2
 TagRead = 1
 TagWrite = 2
 Rendezvous = FALSE
INIT Init
NEXT Next
INVARIANTS Right Complete
