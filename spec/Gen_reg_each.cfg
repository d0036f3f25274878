CONSTANTS Family = "reg" Depth = 1
SPECIFICATION Spec
INVARIANTS Shape Emit
CHECK_DEADLOCK FALSE
