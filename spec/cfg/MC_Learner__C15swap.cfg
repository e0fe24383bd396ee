SPECIFICATION Spec
VIEW view
INVARIANT Independent
PROPERTY EvalPure
PROPERTY EditPure
PROPERTY FailKeeps
CONSTANTS
  Kind = "s"
  Ms = {1}
  Kinds = {"sgd", "isgd", "mom", "nag", "adagrad", "adam", "adamax"}
  Acts = {"eval", "upd", "swap", "reset"}
  Depth = 3
  Design = "own"
  Bs <- BPhi
  Ins <- InsOk
  Errs = {"1"}
