SPECIFICATION Spec
INVARIANT ExactlyOnce
CHECK_DEADLOCK FALSE
