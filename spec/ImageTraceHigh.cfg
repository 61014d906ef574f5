SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT LTop <- HighTop
