SPECIFICATION Spec
INVARIANTS Unmoved Pythagoras Ordered
CHECK_DEADLOCK FALSE
