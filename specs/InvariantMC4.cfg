SPECIFICATION Spec
CONSTANT Scope <- Large
CHECK_DEADLOCK FALSE
INVARIANTS Formula InsideOut MeshFirst Total
