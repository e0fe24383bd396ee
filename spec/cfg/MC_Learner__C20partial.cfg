SPECIFICATION Spec
VIEW view
INVARIANT SameAsOriginal

CONSTANTS
  Kind = "s"
  Ms = {1}
  Kinds = {"mom", "adam"}
  Acts = {"upd", "save"}
  Depth = 4
  Design = "partial"
  Bs <- BPhi
  Ins <- InOne
  Errs = {"1"}
