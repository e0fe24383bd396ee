SPECIFICATION Spec
VIEW view
INVARIANT SameAsOriginal
PROPERTY CrashRestores
CONSTANTS
  Kind = "v"
  Ms = {2}
  Kinds = {"sgd", "adam", "nag"}
  Acts = {"updi", "save"}
  Depth = 4
  Design = "own"
  Bs <- BPhi
  Ins <- InOne
  Errs = {"1"}
