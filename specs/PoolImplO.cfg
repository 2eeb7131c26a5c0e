SPECIFICATION Spec
VIEW View
CONSTANTS
  W = {w1, w2}
  Budgets = {0, 2}
  Limits = {1, 1000000}
  MaxClock = 2
  MaxRuns = 1
  MaxSets = 0
  UseJoiner = TRUE
  Variant = "orig"
  Spurious = FALSE
  KeepHist = FALSE
  Overlap = FALSE
INVARIANT NotStuck
