CONSTANTS NMAX = 6
 ND = 3
INIT Init
NEXT Next
INVARIANTS Laws
