CONSTANTS Family = "ptr" Depth = 12
SPECIFICATION Spec
INVARIANTS Shape Emit
CHECK_DEADLOCK FALSE
