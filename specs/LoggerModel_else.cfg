SPECIFICATION Spec
INVARIANTS Clean 
CHECK_DEADLOCK FALSE
CONSTANTS W = 2 Trials = 2 Runs = 2 Delta = 2 Dt = 1 MaxT = 3 Variant = "else"
