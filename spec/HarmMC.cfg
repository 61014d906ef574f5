CONSTANTS
  L = 12
  Steps = 9
SPECIFICATION Spec
INVARIANTS Addition Gradient Low Equation Mirror
CHECK_DEADLOCK FALSE
