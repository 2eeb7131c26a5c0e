SPECIFICATION Spec
INVARIANTS InRange Exact Fresh Conserved
CHECK_DEADLOCK FALSE
CONSTANTS N = 3 MaxW = 3 Updates = 2 Freq = 2 Variant = "forget"
