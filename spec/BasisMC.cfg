SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT SameAsNormalised
INVARIANT Parity
INVARIANT Bounded
INVARIANT Slope
INVARIANT RadialParts
INVARIANT RadialEnds RadialSame
INVARIANT Pairs
