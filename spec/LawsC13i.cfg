INIT InitInt
NEXT IntNext
INVARIANTS LawCastInt LawCastFloat
CHECK_DEADLOCK FALSE
