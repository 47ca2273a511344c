CONSTANTS MaxCells = 36
 MaxDim = 3
INIT Init
NEXT Next
INVARIANTS Definition Orthogonal Folding Ring
