SPECIFICATION Spec
VIEW view
INVARIANT Alike
INVARIANT DenseStaysDense
INVARIANT Removal
PROPERTY CloneKept
CONSTANTS
  Size = 1
  V = {"2", "-3"}
  Depth = 3
  AddMaps = {}
  AddMerges = {}
  AddStacks = {}
