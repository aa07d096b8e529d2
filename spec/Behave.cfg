SPECIFICATION BSpec
CONSTANT Defs <- SchemaDefs
INVARIANT FullLog CatchUp Depth
CHECK_DEADLOCK FALSE
