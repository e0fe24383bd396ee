SPECIFICATION Spec
INVARIANT Meaning
CONSTANTS
  Op = "lin"
  Size = 3
  V = {"2", "-3"}
