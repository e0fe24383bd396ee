SPECIFICATION Spec
INVARIANT Replayed
INVARIANT HasContract
INVARIANT FailsFirst
INVARIANT Sum
INVARIANT BiasLast
INVARIANT Normalised
CONSTANTS
  Leaves <- LeavesC14
  Envs <- EnvsC14
  Uses = 3
  Len_ = 6
  Ops = {"stack", "wb", "l2"}
