INIT MaskInit
NEXT MaskNext
INVARIANTS LawMask
CHECK_DEADLOCK FALSE
