SPECIFICATION Spec
VIEW View
CONSTANTS
  W = {1, 2, 3}
  Budgets = {0, 1, 2}
  Limits = {0, 1, 2, 1000000}
  MaxClock = 5
  MaxRuns = 3
  MaxSets = 2
  UseJoiner = TRUE
  Variant = "fixed"
  Spurious = FALSE
  KeepHist = TRUE
  Overlap = TRUE
INVARIANT GenOut
CHECK_DEADLOCK FALSE