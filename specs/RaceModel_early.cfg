SPECIFICATION Spec
CONSTANTS
  W = {1, 2}
  Ops = 2
  Variant = "early"
INVARIANT NoRace
CHECK_DEADLOCK FALSE
