INIT InitInt16
NEXT IntNext
INVARIANTS LawCounts
CHECK_DEADLOCK FALSE
