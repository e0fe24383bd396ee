SPECIFICATION Spec
INVARIANT IsTile
INVARIANT Unit
INVARIANT SameInput
INVARIANT Nearby
CONSTANTS
  MaxTilings = 6
  MaxDims = 3
  Grain = 8
  Reach = 2
  Design = "euclid"
