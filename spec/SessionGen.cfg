SPECIFICATION Spec
INVARIANT AllPairs
CHECK_DEADLOCK FALSE
