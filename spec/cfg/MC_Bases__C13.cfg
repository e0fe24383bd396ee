SPECIFICATION Spec
INVARIANT Replayed
INVARIANT HasContract
INVARIANT FailsFirst
INVARIANT Sum
INVARIANT BiasLast
INVARIANT Normalised
CONSTANTS
  Leaves <- LeavesC13
  Envs <- EnvsC13
  Uses = 1
  Len_ = 4
  Ops = {"l0", "l1", "l2", "linf"}
