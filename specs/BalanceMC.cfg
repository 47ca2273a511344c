CONSTANTS NR = 3
 ND = 5
 WMAX = 4
 HLEN = 1
INIT Init
NEXT Next
INVARIANTS Bound Owned
