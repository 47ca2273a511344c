CONSTANTS NR = 2
 MAXP = 2
 FAULTS = TRUE
INIT Init
NEXT Next
INVARIANTS AllRaiseOrNone Complete InOrder RoundTrip
