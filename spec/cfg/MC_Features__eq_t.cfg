SPECIFICATION Spec
INVARIANT Meaning
CONSTANTS
  Op = "eq"
  Size = 3
  V = {"0", "2"}
