SPECIFICATION Spec
CONSTANTS
  W = {1, 2}
  Order = "map"
  Deep = FALSE
INVARIANT NoDeadlock
INVARIANT Owned
CHECK_DEADLOCK FALSE
