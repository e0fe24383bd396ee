SPECIFICATION Spec
VIEW view
INVARIANT SameAsOriginal
PROPERTY EvalPure
PROPERTY CrashRestores
CONSTANTS
  Kind = "s"
  Ms = {1}
  Kinds = {"sgd", "isgd", "mom", "nag", "adagrad", "adam", "adamax"}
  Acts = {"eval", "upd", "save", "reset"}
  Depth = 5
  Design = "own"
  Bs <- BPhi
  Ins <- InsOk
  Errs = {"1"}
