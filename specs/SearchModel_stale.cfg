SPECIFICATION Spec
VIEW View
CONSTANTS
  W = {1}
  Trials = 2
  World = "diamond"
  TT = TRUE
  Mcts = FALSE
  Two = FALSE
  Variant = "stale"
  Rounds = 2
  KeepHist = FALSE
  On <- AllOn
INVARIANT Clean
INVARIANT Conserved
CHECK_DEADLOCK FALSE
