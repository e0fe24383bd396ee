SPECIFICATION Spec
INVARIANT Meaning
CONSTANTS
  Op = "merge"
  Size = 3
  V = {"2", "-3"}
