SPECIFICATION Spec
INVARIANT Meaning
CONSTANTS
  Op = "read"
  Size = 4
  V = {"2", "-3"}
