SPECIFICATION Spec
INVARIANT Replayed
INVARIANT One
INVARIANT Bijection
INVARIANT Edges
PROPERTY Moves
CONSTANTS
  MaxDims = 2
  MaxParts = 3
