SPECIFICATION Spec
VIEW view
INVARIANT Alike
INVARIANT DenseStaysDense
INVARIANT Removal
PROPERTY CloneKept
CONSTANTS
  Size = 2
  V = {"2", "-3"}
  Depth = 2
  AddMaps = {}
  AddMerges = {}
  AddStacks = {}
