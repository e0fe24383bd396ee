SPECIFICATION Spec
INVARIANT Numbered
INVARIANT Complete
INVARIANT Listing
INVARIANT Dims
INVARIANT Feature
INVARIANT FirstKind
PROPERTY Ordered
CONSTANTS
  MaxOrder = 11
  MaxDims = 4
  MaxTerms = 300
