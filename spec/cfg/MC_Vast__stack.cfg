SPECIFICATION Spec
INVARIANTS CellsAre Transported
CONSTANTS
  Sets = {"one", "two"}
  Asks <- AskStack
  V = {"1", "-2"}
  V2 = {"-2"}
  Scale = 20000
  Most = 41
