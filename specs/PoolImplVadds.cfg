SPECIFICATION Spec
VIEW View
CONSTANTS
  W = {w1}
  Budgets = {1, 3}
  Limits = {1, 1000000}
  MaxClock = 2
  MaxRuns = 2
  MaxSets = 0
  UseJoiner = FALSE
  Variant = "adds"
  Spurious = FALSE
  KeepHist = FALSE
  Overlap = TRUE
SYMMETRY Sym
INVARIANT MonitorOk
INVARIANT NotStuck
INVARIANT NumWorking
CHECK_DEADLOCK TRUE
