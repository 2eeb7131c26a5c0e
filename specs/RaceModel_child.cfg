SPECIFICATION Spec
CONSTANTS
  W = {1, 2}
  Ops = 2
  Variant = "child"
INVARIANT NoRace
CHECK_DEADLOCK FALSE
