SPECIFICATION Spec
CONSTANTS
  W = {1, 2, 3, 4}
  Order = "address"
  Deep = FALSE
INVARIANT NoDeadlock
INVARIANT Owned
CHECK_DEADLOCK FALSE
