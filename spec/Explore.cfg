SPECIFICATION Spec
CONSTANT Defs <- SchemaDefs
INVARIANT Good1 Good2
CHECK_DEADLOCK FALSE
