CONSTANTS NMAX = 3
 ND = 3
INIT Init
NEXT Next
INVARIANTS Laws
