INIT VecInit
NEXT VecNext
INVARIANTS LawOrder
CHECK_DEADLOCK FALSE
