SPECIFICATION Spec
INVARIANTS Stepped
CONSTANTS
  Sets = {"one", "two"}
  Asks <- AskRead
  V = {"1", "-2"}
  V2 = {"-2"}
  Scale = 20000
  Most = 1000000
