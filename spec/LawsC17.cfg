INIT PtrInit
NEXT PtrNext
INVARIANTS LawPtr
CHECK_DEADLOCK FALSE
