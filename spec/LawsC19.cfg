INIT FloatInit
NEXT FloatNext
INVARIANTS LawUlp
CHECK_DEADLOCK FALSE
