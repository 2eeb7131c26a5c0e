SPECIFICATION Spec
INVARIANTS Clean Counted Bounded
CHECK_DEADLOCK FALSE
CONSTANTS W = 2 K = 3 Calls = 1 MaxLen = 3 Variant = "code"
