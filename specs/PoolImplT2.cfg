SPECIFICATION Spec
VIEW View
CONSTANTS
  W = {w1, w2}
  Budgets = {0, 1, 2}
  Limits = {0, 1, 2, 1000000}
  MaxClock = 3
  MaxRuns = 2
  MaxSets = 1
  UseJoiner = TRUE
  Variant = "fixed"
  Spurious = FALSE
  KeepHist = FALSE
  Overlap = FALSE
SYMMETRY Sym
INVARIANT MonitorOk
INVARIANT NotStuck
INVARIANT NumWorking
CHECK_DEADLOCK TRUE
