SPECIFICATION Spec
INVARIANTS CellsAre Transported
CONSTANTS
  Sets = {"one", "two", "more"}
  Asks <- AskMap
  V = {"1", "-2", "0"}
  V2 = {}
  Scale = 20000
  Most = 2
