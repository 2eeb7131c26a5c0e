SPECIFICATION Spec
VIEW View
CONSTANTS
  W = {w1, w2}
  Budgets = {0, 2}
  Limits = {1, 1000000}
  MaxClock = 2
  MaxRuns = 1
  MaxSets = 1
  UseJoiner = TRUE
  Variant = "fixed"
  Spurious = TRUE
  KeepHist = FALSE
  Overlap = FALSE
SYMMETRY Sym
INVARIANT MonitorOk
INVARIANT NotStuck
INVARIANT NumWorking
CHECK_DEADLOCK TRUE
