CONSTANTS NI = 2
 NC = 1
 HLEN = 5
INIT Init
NEXT NextH
INVARIANTS Emit
