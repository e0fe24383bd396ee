SPECIFICATION Spec
INVARIANT Survives
INVARIANT Completes
CONSTANTS
  Design = "commit"
  Size = 3
  V = {"2", "-3"}
