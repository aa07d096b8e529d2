SPECIFICATION Spec
CONSTANT Defs <- SchemaDefs
INVARIANT Faithful Complete
CHECK_DEADLOCK FALSE
