SPECIFICATION Spec
CONSTANTS KeyMode = "whole" Shares = FALSE Depth = 4
INVARIANT HistoryFree Frame Steps
PROPERTY Refines
CHECK_DEADLOCK FALSE
