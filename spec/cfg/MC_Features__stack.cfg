SPECIFICATION Spec
INVARIANT Meaning
CONSTANTS
  Op = "stack"
  Size = 2
  V = {"0", "2", "-3"}
