SPECIFICATION Spec
INVARIANTS Clean Counted Bounded
CHECK_DEADLOCK FALSE
CONSTANTS W = 3 K = 3 Calls = 1 MaxLen = 3 Variant = "code"
