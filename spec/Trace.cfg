SPECIFICATION Spec
CONSTANT Defs <- SchemaDefs
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
