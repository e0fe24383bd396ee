SPECIFICATION Spec
INVARIANT Replayed
INVARIANT HasContract
INVARIANT ByComponent
INVARIANT FailsFirst
INVARIANT Sum
INVARIANT BiasLast
INVARIANT Normalised
CONSTANTS
  Leaves <- LeavesC08
  Envs <- EnvsC08
  Uses = 2
  Len_ = 3
  Ops = {"stack", "wb", "l0", "l1", "l2", "linf"}
