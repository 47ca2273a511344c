CONSTANTS NMAX = 6
 QMAX = 4
INIT Init
NEXT Next
INVARIANTS Tiling Owned SignedOK
