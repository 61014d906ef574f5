CONSTANT Dummy = 0
SPECIFICATION Spec
INVARIANTS ReadBack OnlyImaginary NoStray NamedValues
CHECK_DEADLOCK FALSE
