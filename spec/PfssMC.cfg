CONSTANTS
  L = 6
  Steps = 5
SPECIFICATION Spec
INVARIANTS Surface SourceSurface Outside Inside Divergence Curl
CHECK_DEADLOCK FALSE
