CONSTANTS NMAX = 5
 QMAX = 3
INIT Init
NEXT Next
INVARIANTS Tiling Owned SignedOK
