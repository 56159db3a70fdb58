CONSTANT Depth = 5
SPECIFICATION Spec
INVARIANTS OnceKnown DefaultsKnown Listed RoutesHaveAgency
PROPERTIES Stable Quiet MadeUpIsNew
CHECK_DEADLOCK FALSE
