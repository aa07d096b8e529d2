SPECIFICATION Spec
INVARIANT BorrowingChangesNothing
INVARIANT LookingTakesNothing
INVARIANT FailuresSurface
INVARIANT WithinSource
CHECK_DEADLOCK FALSE
