SPECIFICATION Spec
INVARIANTS Clean Complete Sizes EverySo
CHECK_DEADLOCK FALSE
CONSTANTS W = 3 Trials = 3 Runs = 1 Delta = 2 Dt = 0 MaxT = 0 Variant = "code"
