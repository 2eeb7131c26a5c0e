SPECIFICATION Spec
INVARIANTS InRange Exact Fresh Conserved
CHECK_DEADLOCK FALSE
CONSTANTS N = 6 MaxW = 4 Updates = 0 Freq = 2 Variant = "code"
