CONSTANT Most = 6
CONSTANT Emit = TRUE
SPECIFICATION Spec
INVARIANTS Parts Breaks Middle
PROPERTIES Grows
CHECK_DEADLOCK FALSE
