INIT InitInt16
NEXT IntNext
INVARIANTS LawBitwise
CHECK_DEADLOCK FALSE
