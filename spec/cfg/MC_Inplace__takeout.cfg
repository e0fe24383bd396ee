SPECIFICATION Spec
INVARIANT Survives
INVARIANT Completes
CONSTANTS
  Design = "takeout"
  Size = 2
  V = {"2", "-3"}
