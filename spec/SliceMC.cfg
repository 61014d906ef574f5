SPECIFICATION Spec
CONSTANT Reach = 4
INVARIANTS Inside Radius Mirror Turned Zones Angles
CHECK_DEADLOCK FALSE
