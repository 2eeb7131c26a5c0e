SPECIFICATION Spec
INVARIANTS Clean Counted Bounded
CHECK_DEADLOCK FALSE
CONSTANTS W = 1 K = 2 Calls = 2 MaxLen = 3 Variant = "code"
