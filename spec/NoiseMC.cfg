SPECIFICATION Spec
INVARIANTS Within Once OneDrawEach Complete Undone RootRight
PROPERTY Ends
CHECK_DEADLOCK FALSE
