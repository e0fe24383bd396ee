SPECIFICATION Spec
INVARIANT Survives
INVARIANT Completes
CONSTANTS
  Design = "commit"
  Size = 2
  V = {"2", "-3"}
