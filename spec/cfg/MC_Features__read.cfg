SPECIFICATION Spec
INVARIANT Meaning
CONSTANTS
  Op = "read"
  Size = 3
  V = {"0", "2", "-3"}
