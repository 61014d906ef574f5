CONSTANTS
  NT = 7
  NP = 13
  Moves = 4
SPECIFICATION Spec
INVARIANTS Uniform Linearity Outward HalfSeen
CHECK_DEADLOCK FALSE
