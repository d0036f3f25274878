CONSTANTS Family = "mem" Depth = 12
SPECIFICATION Spec
INVARIANTS Shape Emit
CHECK_DEADLOCK FALSE
