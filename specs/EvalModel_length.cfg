SPECIFICATION Spec
INVARIANTS Clean
CHECK_DEADLOCK FALSE
CONSTANTS W = 1 K = 1 Calls = 1 MaxLen = 2 Variant = "length"
