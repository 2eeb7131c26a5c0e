SPECIFICATION Spec
VIEW View
CONSTANTS
  W = {1, 2}
  Trials = 2
  World = "loop"
  TT = TRUE
  Mcts = TRUE
  Two = TRUE
  Variant = "code"
  Rounds = 2
  KeepHist = FALSE
  On <- AllOn
INVARIANT Clean
INVARIANT Conserved
CHECK_DEADLOCK FALSE
INVARIANT OnePerKey
