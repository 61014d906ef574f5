CONSTANTS
  L = 3
  NT = 10
  NP = 8
SPECIFICATION Spec
INVARIANT Recovered
CHECK_DEADLOCK FALSE
