CONSTANTS NI = 2
 NC = 1
 HLEN = 4
INIT Init
NEXT NextH
INVARIANTS Emit
