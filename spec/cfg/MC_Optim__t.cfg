SPECIFICATION Spec
VIEW view
INVARIANT Textbook
INVARIANT ZeroFirst
INVARIANT AsNew
INVARIANT InRounds
INVARIANT SameForm
INVARIANT Decays
PROPERTY KeepsW
PROPERTY Rests
CONSTANTS
  Kinds = {"sgd", "isgd", "mom", "nag", "adagrad", "adam", "adamax"}
  Depth = 4
  Errors = {"1", "-0.5"}
  Feats <- FeatsFew
  Design = "full"
