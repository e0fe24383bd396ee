SPECIFICATION Spec
VIEW view

PROPERTY FailKeeps
CONSTANTS
  Kind = "s"
  Ms = {1}
  Kinds = {"mom", "adam"}
  Acts = {"upd", "panic"}
  Depth = 3
  Design = "early"
  Bs <- BFail
  Ins <- InsFail
  Errs = {"1"}
