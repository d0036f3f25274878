INIT FloatInit
NEXT FloatNext
INVARIANTS LawFloat
CHECK_DEADLOCK FALSE
