CONSTANTS NMAX = 5
 QMAX = 3
 ND = 2
INIT Init
NEXT Next
INVARIANTS Laws
