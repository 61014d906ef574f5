CONSTANTS
  Depth = 3
  L = 4
SPECIFICATION Spec
INVARIANTS IsRotation QuatAgrees Euler KernelInvariant FoldKeepsReal FoldOnce
CHECK_DEADLOCK FALSE
