CONSTANTS NMAX = 3
 MAXSET = 2
 VALS <- Vals
INIT Init
NEXT Next
CONSTRAINT Limit
INVARIANTS Herm
CHECK_DEADLOCK FALSE
