SPECIFICATION Spec
VIEW view

PROPERTY EvalPure
PROPERTY FailKeeps
CONSTANTS
  Kind = "v"
  Ms = {0, 2}
  Kinds = {"sgd", "mom", "adam"}
  Acts = {"eval", "upd", "updi", "panic"}
  Depth = 2
  Design = "own"
  Bs <- BFail
  Ins <- InsFail
  Errs = {"1"}
