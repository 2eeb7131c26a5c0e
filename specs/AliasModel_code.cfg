SPECIFICATION Spec
INVARIANTS InRange Exact Fresh Conserved
CHECK_DEADLOCK FALSE
CONSTANTS N = 4 MaxW = 4 Updates = 2 Freq = 2 Variant = "code"
