CONSTANTS NMAX = 8
 ND = 2
INIT Init
NEXT Next
INVARIANTS Laws
