SPECIFICATION Spec
INVARIANTS IsWave Amplitude
CHECK_DEADLOCK FALSE
