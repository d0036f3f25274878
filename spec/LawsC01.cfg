INIT InitInt
NEXT IntNext
INVARIANTS LawArith8 LawArithWide
CHECK_DEADLOCK FALSE
