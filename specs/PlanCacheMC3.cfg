CONSTANTS NR = 3
 NSLOT = 3
 NCFG = 2
 HLEN = 6
INIT Init
NEXT Next
INVARIANTS Agree NoMix Right Released
