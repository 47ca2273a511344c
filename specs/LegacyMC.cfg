CONSTANTS NMAX = 5
INIT Init
NEXT Next
INVARIANTS Laws
