CONSTANTS
  L = 30
  Steps = 20
SPECIFICATION Spec
INVARIANTS Addition Gradient Low Equation Mirror
CHECK_DEADLOCK FALSE
