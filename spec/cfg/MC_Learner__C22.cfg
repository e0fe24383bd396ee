SPECIFICATION Spec
VIEW view

PROPERTY Contraction
PROPERTY Steps22
CONSTANTS
  Kind = "s"
  Ms = {1}
  Kinds = {"isgd", "sgd"}
  Acts = {"target", "upd"}
  Depth = 4
  Design = "own"
  Bs <- BPhi
  Ins <- InsOk
  Errs = {"1"}
