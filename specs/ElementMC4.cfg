CONSTANTS NMAX = 4
 MAXSET = 2
 VALS <- Vals
INIT Init
NEXT Next
CONSTRAINT Limit
INVARIANTS Herm
CHECK_DEADLOCK FALSE
