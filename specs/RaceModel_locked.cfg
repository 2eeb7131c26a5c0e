SPECIFICATION Spec
CONSTANTS
  W = {1, 2}
  Ops = 2
  Variant = "locked"
INVARIANT NoRace
CHECK_DEADLOCK FALSE
