SPECIFICATION Spec
INVARIANT Meaning
CONSTANTS
  Op = "merge"
  Size = 2
  V = {"0", "2", "-3"}
