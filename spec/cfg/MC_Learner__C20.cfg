SPECIFICATION Spec
VIEW view
INVARIANT SameAsOriginal
PROPERTY EvalPure
PROPERTY CrashRestores
CONSTANTS
  Kind = "s"
  Ms = {1}
  Kinds = {"sgd", "isgd", "mom", "nag", "adagrad", "adam", "adamax"}
  Acts = {"upd", "save", "reset"}
  Depth = 4
  Design = "own"
  Bs <- BPhi
  Ins <- InOne
  Errs = {"1", "-2"}
