SPECIFICATION Spec
VIEW View
CONSTANTS
  W = {w1, w2}
  Budgets = {1, 2}
  Limits = {1, 1000000}
  MaxClock = 2
  MaxRuns = 2
  MaxSets = 1
  UseJoiner = FALSE
  Variant = "fixed"
  Spurious = FALSE
  KeepHist = FALSE
  Overlap = FALSE
SYMMETRY Sym
INVARIANT MonitorOk
INVARIANT NotStuck
INVARIANT NumWorking
CHECK_DEADLOCK TRUE
