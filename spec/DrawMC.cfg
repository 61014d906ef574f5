CONSTANT Len0 = 2
CONSTANT Emit = FALSE
SPECIFICATION Spec
INVARIANTS NoImageOfRefused OnlyNamed
PROPERTIES Frame
CHECK_DEADLOCK FALSE
