SPECIFICATION Spec
CONSTANT MaxN = 7
CHECK_DEADLOCK FALSE
INVARIANTS Seeded OneColumnPerSeed Hermitian ScaleFree ScaleFreePlane
