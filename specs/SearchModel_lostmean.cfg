SPECIFICATION Spec
VIEW View
CONSTANTS
  W = {1, 2}
  Trials = 2
  World = "diamond"
  TT = FALSE
  Mcts = FALSE
  Two = FALSE
  Variant = "lostmean"
  Rounds = 1
  KeepHist = FALSE
  On <- AllOn
INVARIANT Clean
INVARIANT Conserved
CHECK_DEADLOCK FALSE
