SPECIFICATION Spec
VIEW view
INVARIANT Independent
PROPERTY EvalPure
PROPERTY OnlyOne
CONSTANTS
  Kind = "v"
  Ms = {0, 1, 2, 3}
  Kinds = {"sgd", "isgd"}
  Acts = {"eval", "upd", "updi", "updw"}
  Depth = 2
  Design = "own"
  Bs <- BPhi
  Ins <- InsOk
  Errs = {"1"}
