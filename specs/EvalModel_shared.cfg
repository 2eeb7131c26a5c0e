SPECIFICATION Spec
INVARIANTS Clean
CHECK_DEADLOCK FALSE
CONSTANTS W = 2 K = 2 Calls = 1 MaxLen = 3 Variant = "shared"
