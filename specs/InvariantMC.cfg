SPECIFICATION Spec
CONSTANT Scope <- Small
CHECK_DEADLOCK FALSE
INVARIANTS Formula InsideOut MeshFirst Total
