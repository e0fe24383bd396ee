SPECIFICATION Spec
INVARIANT IsTile
INVARIANT Unit
INVARIANT SameInput
INVARIANT Nearby
CONSTANTS
  MaxTilings = 5
  MaxDims = 2
  Grain = 4
  Reach = 1
  Design = "truncate"
