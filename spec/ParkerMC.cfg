SPECIFICATION Spec
INVARIANTS Curve Branch
PROPERTIES Faster Thinner
CHECK_DEADLOCK FALSE
