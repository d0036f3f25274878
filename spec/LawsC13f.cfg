INIT FloatInit
NEXT FloatNext
INVARIANTS LawCastFF
CHECK_DEADLOCK FALSE
