INIT Init
NEXT Next
INVARIANT Agrees
