SPECIFICATION Spec
INVARIANT Meaning
CONSTANTS
  Op = "map"
  Size = 2
  V = {"0", "2", "-3"}
