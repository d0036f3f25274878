CONSTANTS Family = "ptr" Depth = 1
SPECIFICATION Spec
INVARIANTS Shape Emit
CHECK_DEADLOCK FALSE
