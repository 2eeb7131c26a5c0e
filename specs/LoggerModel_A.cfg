SPECIFICATION Spec
INVARIANTS Clean Complete Sizes EverySo
CHECK_DEADLOCK FALSE
CONSTANTS W = 2 Trials = 2 Runs = 2 Delta = 2 Dt = 2 MaxT = 4 Variant = "code"
