SPECIFICATION Spec
VIEW View
CONSTANTS
  W = {1, 2}
  Trials = 2
  World = "sink"
  TT = FALSE
  Mcts = TRUE
  Two = FALSE
  Variant = "code"
  Rounds = 1
  KeepHist = FALSE
  On <- AllOn
INVARIANT Clean
INVARIANT Conserved
CHECK_DEADLOCK FALSE
