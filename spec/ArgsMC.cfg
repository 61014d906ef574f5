CONSTANTS Depth = 5 Emit = FALSE
SPECIFICATION Spec
INVARIANTS Agrees RunsOnly LevelApart FirstEnds LastLevel
PROPERTY Stays
CHECK_DEADLOCK FALSE
