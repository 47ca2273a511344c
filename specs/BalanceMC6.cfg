CONSTANTS NR = 4
 ND = 6
 WMAX = 3
 HLEN = 1
INIT Init
NEXT Next
INVARIANTS Bound Owned
