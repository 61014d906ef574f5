SPECIFICATION Spec
INVARIANTS Reads Keeps Writes Ticks
CHECK_DEADLOCK FALSE
