SPECIFICATION Spec
INVARIANT Meaning
CONSTANTS
  Op = "lin"
  Size = 2
  V = {"0", "2", "-3"}
