CONSTANTS N1 = 2
 N2 = 2
 VMAX = 1
 JMAX = 1
 P = 1
INIT Init
NEXT Next
INVARIANTS Laws
