CONSTANT Reach = 3
SPECIFICATION Spec
INVARIANTS RoundTrip Rotation Growth Patches View
CHECK_DEADLOCK FALSE
