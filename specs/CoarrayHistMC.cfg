CONSTANTS NI = 2
 NC = 1
 HLEN = 4
INIT Init
NEXT Next
INVARIANTS Drained Known
PROPERTY Quiet
