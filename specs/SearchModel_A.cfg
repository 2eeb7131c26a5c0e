SPECIFICATION Spec
VIEW View
CONSTANTS
  W = {1, 2}
  Trials = 3
  World = "diamond"
  TT = TRUE
  Mcts = FALSE
  Two = FALSE
  Variant = "code"
  Rounds = 1
  KeepHist = FALSE
  On <- AllOn
INVARIANT Clean
INVARIANT Conserved
CHECK_DEADLOCK FALSE
INVARIANT OnePerKey
