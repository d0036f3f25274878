INIT InitInt16
NEXT IntNext
INVARIANTS LawBytes
CHECK_DEADLOCK FALSE
