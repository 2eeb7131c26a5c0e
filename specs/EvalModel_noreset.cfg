SPECIFICATION Spec
INVARIANTS Clean
CHECK_DEADLOCK FALSE
CONSTANTS W = 1 K = 2 Calls = 1 MaxLen = 2 Variant = "noreset"
