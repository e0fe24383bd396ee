SPECIFICATION Spec
INVARIANTS CellsAre Transported
CONSTANTS
  Sets = {"one", "two"}
  Asks <- AskMap
  V = {"1", "-2"}
  V2 = {}
  Scale = 20000
  Most = 3
