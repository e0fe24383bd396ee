SPECIFICATION Spec
VIEW view
INVARIANT Independent
PROPERTY OnlyOne
CONSTANTS
  Kind = "v"
  Ms = {1, 2}
  Kinds = {"sgd", "isgd", "mom", "nag", "adagrad", "adam", "adamax"}
  Acts = {"upd", "updi"}
  Depth = 3
  Design = "own"
  Bs <- BPhi
  Ins <- InOne
  Errs = {"1"}
