CONSTANT Family = "reg"
SPECIFICATION Spec
INVARIANT Laws
CHECK_DEADLOCK FALSE
