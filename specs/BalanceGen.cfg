CONSTANTS NR = 2
 ND = 4
 WMAX = 1
 HLEN = 2
INIT Init
NEXT Next
INVARIANTS Emit
