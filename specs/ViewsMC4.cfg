CONSTANTS NMAX = 4
 QMAX = 3
 ND = 3
INIT Init
NEXT Next
INVARIANTS Laws
