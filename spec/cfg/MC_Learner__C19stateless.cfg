SPECIFICATION Spec
VIEW view
INVARIANT Independent
PROPERTY OnlyOne
CONSTANTS
  Kind = "v"
  Ms = {2, 3}
  Kinds = {"sgd", "isgd"}
  Acts = {"upd", "updi"}
  Depth = 3
  Design = "shared"
  Bs <- BPhi
  Ins <- InOne
  Errs = {"1"}
