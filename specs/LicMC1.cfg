CONSTANTS N1 = 3
 N2 = 1
 VMAX = 1
 JMAX = 2
 P = 1
INIT Init
NEXT Next
INVARIANTS Laws
