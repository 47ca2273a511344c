CONSTANTS NR = 3
 MAXP = 1
 FAULTS = FALSE
INIT Init
NEXT Next
INVARIANTS AllRaiseOrNone Complete InOrder RoundTrip
