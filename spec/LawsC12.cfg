INIT ShufInit
NEXT ShufNext
INVARIANTS LawShuffle
CHECK_DEADLOCK FALSE
