CONSTANTS NMAX = 4
 ND = 3
INIT Init
NEXT Next
INVARIANTS Laws
