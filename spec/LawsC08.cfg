INIT FloatInit
NEXT FloatNext
INVARIANTS LawFloatReduce
CHECK_DEADLOCK FALSE
