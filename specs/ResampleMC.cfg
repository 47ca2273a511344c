CONSTANTS NMAX = 5
 ND = 2
INIT Init
NEXT Next
INVARIANTS Laws
