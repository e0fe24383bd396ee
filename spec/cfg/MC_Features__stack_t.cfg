SPECIFICATION Spec
INVARIANT Meaning
CONSTANTS
  Op = "stack"
  Size = 3
  V = {"2", "-3"}
