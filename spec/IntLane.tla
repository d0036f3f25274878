------------------------------- MODULE IntLane -------------------------------
(* Two's-complement lanes of any width: a lane is a byte sequence, `sg` says  *)
(* whether the lane type is signed.  All operations are total on the domain   *)
(* the crate documents; the guards DivDefined and ShiftDefined state it.      *)
EXTENDS Bytes

Bits(a)  == 8 * Len(a)
ZeroL(a) == Zeros(Len(a))
OneL(n)  == [i \in 1..n |-> IF i = 1 THEN 1 ELSE 0]
MinL(n)  == [i \in 1..n |-> IF i = n THEN 128 ELSE 0]

WAdd(a, b) == AddN(a, b, Len(a))
WSub(a, b) == SubN(a, b, Len(a))
WMul(a, b) == MulN(a, b, Len(a))
WNeg(a)    == SubN(ZeroL(a), a, Len(a))

Neg(sg, a) == sg /\ TopBit(a)
Mag(sg, a) == IF Neg(sg, a) THEN WNeg(a) ELSE a
DivDefined(sg, a, b) == /\ ~IsZero(b)
                        /\ ~(sg /\ a = MinL(Len(a)) /\ b = Ones(Len(b)))
WDiv(sg, a, b) ==
  LET q == Ext(DivMod(Mag(sg, a), Mag(sg, b))[1], Len(a))
  IN  IF Neg(sg, a) # Neg(sg, b) THEN WNeg(q) ELSE q
WRem(sg, a, b) ==
  LET r == Ext(DivMod(Mag(sg, a), Mag(sg, b))[2], Len(a))
  IN  IF Neg(sg, a) THEN WNeg(r) ELSE r

\* -1, 0, 1 by the order of the lane type
CmpL(sg, a, b) == IF Neg(sg, a) # Neg(sg, b) THEN (IF Neg(sg, a) THEN -1 ELSE 1)
                  ELSE Cmp(a, b)
MinOf(sg, a, b) == IF CmpL(sg, a, b) <= 0 THEN a ELSE b
MaxOf(sg, a, b) == IF CmpL(sg, a, b) >= 0 THEN a ELSE b

BAnd(a, b) == [i \in 1..Len(a) |-> a[i] & b[i]]
BOr(a, b)  == [i \in 1..Len(a) |-> a[i] | b[i]]
BXor(a, b) == [i \in 1..Len(a) |-> a[i] ^^ b[i]]
BNot(a)    == [i \in 1..Len(a) |-> 255 - a[i]]

\* the value of a count lane, as a TLC integer, when it is below the lane width
ShiftDefined(a, c) == /\ \A i \in 2..Len(c) : c[i] = 0
                      /\ c[1] < Bits(a)
LShl(a, k) == ShlN(a, k, Len(a))
LShr(sg, a, k) == IF Neg(sg, a) THEN BNot(ShrN(BNot(a), k, Len(a))) ELSE ShrN(a, k, Len(a))
\* lane widths are powers of two, so the count modulo the width is in byte 1
RotCount(a, c) == c[1] % Bits(a)
RotL(a, k) == BOr(ShlN(a, k, Len(a)), ShrN(a, Bits(a) - k, Len(a)))
RotR(a, k) == RotL(a, (Bits(a) - k) % Bits(a))

Pop8 == [x \in 0..255 |-> (x%2) + ((x\div 2)%2) + ((x\div 4)%2) + ((x\div 8)%2)
                        + ((x\div 16)%2) + ((x\div 32)%2) + ((x\div 64)%2) + (x\div 128)]
CountOnes(a) == FoldLeft(LAMBDA n, x : n + Pop8[x], 0, a)
CountZeros(a) == Bits(a) - CountOnes(a)
LeadingZeros(a) == Bits(a) - BitLen(a)
TrailingZeros(a) == IF IsZero(a) THEN Bits(a)
                    ELSE CHOOSE k \in 0..(Bits(a)-1) : Bit(a, k) = 1 /\ \A j \in 0..(k-1) : Bit(a, j) = 0
=============================================================================
