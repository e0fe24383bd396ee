SPECIFICATION Spec
INVARIANT Replayed
INVARIANT Shape
INVARIANT Isotropic
PROPERTY Decreases
CONSTANTS
  MaxDims = 3
  Steps = 2
