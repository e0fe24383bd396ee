SPECIFICATION Spec
VIEW view
INVARIANT Independent
PROPERTY EvalPure
PROPERTY OnlyOne
CONSTANTS
  Kind = "v"
  Ms = {0, 1, 2, 3}
  Kinds = {"sgd", "isgd", "mom", "nag", "adagrad", "adam", "adamax"}
  Acts = {"eval", "upd", "updi", "updw"}
  Depth = 3
  Design = "own"
  Bs <- BPhi
  Ins <- InOne
  Errs = {"1"}
