CONSTANT Most = 5
SPECIFICATION Spec
INVARIANTS AreasAddUp Positive UnitNormals
CHECK_DEADLOCK FALSE
