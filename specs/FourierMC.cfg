CONSTANTS MaxCells = 16
 MaxDim = 3
INIT Init
NEXT Next
INVARIANTS Definition Orthogonal Folding Ring
