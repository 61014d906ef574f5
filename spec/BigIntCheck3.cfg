SPECIFICATION Spec
CONSTANTS
  Limbs = {0, 1, 16384, 32767}
  Longest = 3
INVARIANTS Small Same1 Same2 Ring Division Root
CHECK_DEADLOCK FALSE
