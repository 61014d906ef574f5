SPECIFICATION Spec
CONSTANT Reach = 9
INVARIANTS Circle Addition Turn Slope Log Root Quotient Power Order Pi
CHECK_DEADLOCK FALSE
