CONSTANTS Family = "xi" Depth = 24
SPECIFICATION Spec
INVARIANTS Shape Emit
CHECK_DEADLOCK FALSE
