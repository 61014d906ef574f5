CONSTANT Len0 = 1
CONSTANT Emit = TRUE
SPECIFICATION Spec
INVARIANTS NoImageOfRefused OnlyNamed
PROPERTIES Frame
CHECK_DEADLOCK FALSE
