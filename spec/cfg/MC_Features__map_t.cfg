SPECIFICATION Spec
INVARIANT Meaning
CONSTANTS
  Op = "map"
  Size = 3
  V = {"2", "-3"}
