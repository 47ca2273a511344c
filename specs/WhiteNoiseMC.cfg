SPECIFICATION Spec
CONSTANT MaxN = 5
CHECK_DEADLOCK FALSE
INVARIANTS Seeded OneColumnPerSeed Hermitian ScaleFree ScaleFreePlane
