SPECIFICATION Spec
CONSTANT Defs <- SchemaDefs
INVARIANT FullLog CatchUp Depth
PROPERTY AppendOnly Silent Loud
CHECK_DEADLOCK FALSE
