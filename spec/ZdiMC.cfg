CONSTANTS
  L = 8
  Steps = 7
SPECIFICATION Spec
INVARIANTS QuarterTurn Linear Shift Norm Gradient SignedOrders
CHECK_DEADLOCK FALSE
