CONSTANTS NI = 2
 NOPS = 3
 TagRead = 1
 TagWrite = 2
 Rendezvous = TRUE
INIT Init
NEXT Next
INVARIANTS Right Complete
