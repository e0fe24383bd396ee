SPECIFICATION Spec
VIEW view
INVARIANT Independent

CONSTANTS
  Kind = "v"
  Ms = {2}
  Kinds = {"mom", "nag", "adagrad", "adam", "adamax"}
  Acts = {"upd"}
  Depth = 2
  Design = "shared"
  Bs <- BPhi
  Ins <- InOne
  Errs = {"1"}
