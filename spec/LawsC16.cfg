INIT FmtInit
NEXT FmtNext
INVARIANTS LawDigits LawPad
CHECK_DEADLOCK FALSE
