CONSTANTS Family = "xf" Depth = 24
SPECIFICATION Spec
INVARIANTS Shape Emit
CHECK_DEADLOCK FALSE
