INIT RedInit
NEXT RedNext
INVARIANTS LawReduce
CHECK_DEADLOCK FALSE
