SPECIFICATION Spec
INVARIANTS Clean 
CHECK_DEADLOCK FALSE
CONSTANTS W = 2 Trials = 1 Runs = 3 Delta = 2 Dt = 0 MaxT = 4 Variant = "nolast"
