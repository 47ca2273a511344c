CONSTANTS NI = 3
 NOPS = 1
 TagRead = 1
 TagWrite = 2
 Rendezvous = TRUE
INIT Init
NEXT Next
INVARIANTS Right Complete
