CONSTANTS NMAX = 8
INIT Init
NEXT Next
INVARIANTS Laws
