SPECIFICATION Spec
VIEW view
INVARIANT Textbook
INVARIANT ZeroFirst
INVARIANT AsNew
INVARIANT SameForm
INVARIANT Decays
PROPERTY KeepsW
PROPERTY Rests
CONSTANTS
  Kinds = {"adam", "adamax"}
  Depth = 3
  Errors = {"1"}
  Feats <- FeatsFew
  Design = "keep"
