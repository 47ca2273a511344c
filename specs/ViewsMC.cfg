CONSTANTS NMAX = 3
 QMAX = 2
 ND = 3
INIT Init
NEXT Next
INVARIANTS Laws
