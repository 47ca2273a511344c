CONSTANTS N1 = 2
 N2 = 2
 VMAX = 1
 JMAX = 2
 P = 0
INIT Init
NEXT Next
INVARIANTS Laws
