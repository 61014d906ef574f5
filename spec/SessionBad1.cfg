SPECIFICATION Spec
CONSTANTS KeyMode = "part" Shares = FALSE Depth = 4
INVARIANT HistoryFree Frame Steps
PROPERTY Refines
CHECK_DEADLOCK FALSE
