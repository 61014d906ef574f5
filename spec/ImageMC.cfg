CONSTANTS
  L = 3
  NT = 9
  NP = 8
SPECIFICATION Spec
INVARIANTS Back Conjugate
CHECK_DEADLOCK FALSE
