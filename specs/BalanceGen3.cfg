CONSTANTS NR = 2
 ND = 4
 WMAX = 1
 HLEN = 3
INIT Init
NEXT Next
INVARIANTS Emit
