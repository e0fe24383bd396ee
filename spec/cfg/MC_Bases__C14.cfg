SPECIFICATION Spec
INVARIANT Replayed
INVARIANT HasContract
INVARIANT FailsFirst
INVARIANT Sum
INVARIANT BiasLast
INVARIANT Normalised
CONSTANTS
  Leaves <- LeavesC14
  Envs <- EnvsC14
  Uses = 3
  Len_ = 5
  Ops = {"stack", "wb"}
