CONSTANTS NI = 2
 NC = 2
 HLEN = 3
INIT Init
NEXT NextH
INVARIANTS Emit
