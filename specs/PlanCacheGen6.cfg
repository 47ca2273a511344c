CONSTANTS NR = 2
 NSLOT = 2
 NCFG = 2
 HLEN = 6
INIT Init
NEXT Next
INVARIANTS Emit
