INIT FloatInit
NEXT FloatNext
INVARIANTS LawFloatOrder
CHECK_DEADLOCK FALSE
