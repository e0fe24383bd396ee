SPECIFICATION Spec
INVARIANT IsTile
INVARIANT Unit
INVARIANT SameInput
INVARIANT Nearby
CONSTANTS
  MaxTilings = 8
  MaxDims = 2
  Grain = 4
  Reach = 2
  Design = "euclid"
