SPECIFICATION Spec
INVARIANT Transported
CONSTANTS
  Size = 2
  V = {"1", "-2"}
  Bs = {"1", "4294967296", "9007199254740993"}
