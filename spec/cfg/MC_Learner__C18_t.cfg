SPECIFICATION Spec
VIEW view
INVARIANT Independent
PROPERTY EvalPure
PROPERTY FailKeeps
CONSTANTS
  Kind = "s"
  Ms = {1}
  Kinds = {"sgd", "isgd", "mom", "nag", "adagrad", "adam", "adamax"}
  Acts = {"upd", "updw", "panic", "reset"}
  Depth = 4
  Design = "own"
  Bs <- BFail
  Ins <- InsFail
  Errs = {"1"}
