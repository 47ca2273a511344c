CONSTANTS NMAX = 6
 ND = 2
INIT Init
NEXT Next
INVARIANTS Laws
