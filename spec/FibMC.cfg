SPECIFICATION Spec
INVARIANTS Unit Balanced InBand
PROPERTIES Turns
CHECK_DEADLOCK FALSE
