CONSTANTS HLEN = 4
 MAXF = 5
INIT Init
NEXT Next
INVARIANTS Agree Known Same
PROPERTY Others
