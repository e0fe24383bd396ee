SPECIFICATION Spec
INVARIANT Meaning
CONSTANTS
  Op = "eq"
  Size = 2
  V = {"0", "2", "-3"}
