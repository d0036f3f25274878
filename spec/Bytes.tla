-------------------------------- MODULE Bytes --------------------------------
(* Natural numbers as little-endian sequences of bytes.                       *)
(*                                                                            *)
(* TLC's integers are 32 bits wide, the lanes of packed_simd vectors go up to *)
(* 128 bits, and exact floating-point intermediates need more still.  Every   *)
(* quantity of the specification is therefore a sequence of bytes, least      *)
(* significant first - which is also the memory image of a lane on the        *)
(* little-endian targets this tree is checked on.                             *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise

Byte == 0..255
Zeros(n) == [i \in 1..n |-> 0]
Ones(n)  == [i \in 1..n |-> 255]
Idx(n)   == [i \in 1..n |-> i]
At(a, i) == IF i >= 1 /\ i <= Len(a) THEN a[i] ELSE 0
IsZero(a) == \A i \in 1..Len(a) : a[i] = 0

\* Zero-extension / truncation, and sign-extension / truncation, to n bytes.
Ext(a, n)  == IF Len(a) = n THEN a ELSE [i \in 1..n |-> IF i <= Len(a) THEN a[i] ELSE 0]
TopBit(a)  == a[Len(a)] >= 128
SExt(a, n) == LET f == IF TopBit(a) THEN 255 ELSE 0
              IN  [i \in 1..n |-> IF i <= Len(a) THEN a[i] ELSE f]

\* Drop leading (most significant) zero bytes.
RECURSIVE NormLen(_, _)
NormLen(a, n) == IF n = 0 THEN 0 ELSE IF a[n] # 0 THEN n ELSE NormLen(a, n-1)
Norm(a) == SubSeq(a, 1, NormLen(a, Len(a)))

RECURSIVE FromInt(_, _)
FromInt(k, n) == IF n = 0 THEN <<>> ELSE <<k % 256>> \o FromInt(k \div 256, n-1)
\* only meaningful below 2^31
RECURSIVE ToInt(_)
ToInt(a) == IF a = <<>> THEN 0 ELSE a[1] + 256 * ToInt(Tail(a))

RECURSIVE AddR(_, _, _, _, _)
AddR(a, b, n, i, c) ==
  IF i > n THEN <<>>
  ELSE LET s == At(a, i) + At(b, i) + c
       IN  <<s % 256>> \o AddR(a, b, n, i+1, s \div 256)
AddN(a, b, n) == AddR(a, b, n, 1, 0)

RECURSIVE SubR(_, _, _, _, _)
SubR(a, b, n, i, c) ==
  IF i > n THEN <<>>
  ELSE LET s == At(a, i) - At(b, i) - c
       IN  <<s % 256>> \o SubR(a, b, n, i+1, IF s < 0 THEN 1 ELSE 0)
SubN(a, b, n) == SubR(a, b, n, 1, 0)

RECURSIVE MulCol(_, _, _, _, _)
MulCol(a, b, k, i, hi) ==
  IF i > hi THEN 0 ELSE a[i] * b[k+1-i] + MulCol(a, b, k, i+1, hi)
RECURSIVE MulR(_, _, _, _, _)
MulR(a, b, n, k, c) ==
  IF k > n THEN <<>>
  ELSE LET lo == IF k > Len(b) THEN k+1-Len(b) ELSE 1
           hi == IF k < Len(a) THEN k ELSE Len(a)
           s  == MulCol(a, b, k, lo, hi) + c
       IN  <<s % 256>> \o MulR(a, b, n, k+1, s \div 256)
MulN(a, b, n) == MulR(a, b, n, 1, 0)
Mul(a, b) == MulN(a, b, Len(a) + Len(b))

\* Unsigned comparison: -1, 0, 1.
RECURSIVE CmpR(_, _, _)
CmpR(a, b, i) == IF i = 0 THEN 0
                 ELSE IF At(a, i) < At(b, i) THEN -1
                 ELSE IF At(a, i) > At(b, i) THEN 1
                 ELSE CmpR(a, b, i-1)
Cmp(a, b) == CmpR(a, b, IF Len(a) > Len(b) THEN Len(a) ELSE Len(b))
Lt(a, b) == Cmp(a, b) < 0
Le(a, b) == Cmp(a, b) <= 0

P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256>>      \* P2[k+1] = 2^k
Bit(a, k) == (At(a, (k \div 8) + 1) \div P2[(k % 8) + 1]) % 2

RECURSIVE ByteBits(_)
ByteBits(x) == IF x = 0 THEN 0 ELSE 1 + ByteBits(x \div 2)
\* position of the most significant one bit, counting from 1; 0 for zero
BitLen(a) == LET n == NormLen(a, Len(a)) IN IF n = 0 THEN 0 ELSE 8*(n-1) + ByteBits(a[n])

\* (a * 2^k) mod 256^n
ShlN(a, k, n) ==
  LET q == k \div 8
      f == P2[(k % 8) + 1]
      g == 256 \div f
  IN  [i \in 1..n |-> ((At(a, i-q) * f) % 256) + (At(a, i-q-1) \div g)]
\* a \div 2^k, as n bytes
ShrN(a, k, n) ==
  LET q == k \div 8
      f == P2[(k % 8) + 1]
      g == 256 \div f
  IN  [i \in 1..n |-> (At(a, i+q) \div f) + ((At(a, i+q+1) * g) % 256)]
Shl(a, k) == Norm(ShlN(a, k, Len(a) + (k \div 8) + 1))
Shr(a, k) == IF k >= 8*Len(a) THEN <<>> ELSE Norm(ShrN(a, k, Len(a) - (k \div 8)))
\* are the k least significant bits all zero?
LowZero(a, k) ==
  /\ \A i \in 1..(IF k \div 8 < Len(a) THEN k \div 8 ELSE Len(a)) : a[i] = 0
  /\ At(a, (k \div 8) + 1) % P2[(k % 8) + 1] = 0
Add(a, b) == LET n == 1 + (IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)) IN Norm(AddN(a, b, n))
Sub(a, b) == Norm(SubN(a, b, Len(a)))           \* requires b <= a

(* Schoolbook division in base 256.  Both operands are first shifted so that  *)
(* the divisor's top byte is at least 128, which makes the two-byte estimate  *)
(* of each quotient digit too small by at most a few units.                   *)
RECURSIVE FixDigit(_, _, _)
FixDigit(d, r, b) == IF Le(b, r) THEN FixDigit(d+1, SubN(r, b, Len(r)), b) ELSE <<d, r>>
DivStep(b, nb, acc, x) ==
  LET r   == <<x>> \o acc[2]                        \* r < 256 * b
      top == (At(r, nb+1) * 256 + At(r, nb)) * 256 + At(r, nb-1)
      est == top \div ((b[nb] * 256 + At(b, nb-1)) + 1)
      rr  == SubN(Ext(r, nb+1), MulN(b, <<est>>, nb+1), nb+1)
      fix == FixDigit(est, rr, b)
  IN  << <<fix[1]>> \o acc[1], SubSeq(fix[2], 1, nb) >>
\* quotient and remainder by a small number d (d * 256 within TLC's integers)
DivSmall(a, d) ==
  FoldRight(LAMBDA x, acc : LET t == acc[2] * 256 + x IN <<<<t \div d>> \o acc[1], t % d>>, a, <<<<>>, 0>>)
DivLong(a0, b0) ==                                  \* <<quotient, remainder>>, b0 # 0
  LET b1 == Norm(b0)
      s  == 8 - ByteBits(b1[Len(b1)])
      b  == Ext(Shl(b1, s), Len(b1))
      a  == Shl(a0, s)
      nb == Len(b)
      res == FoldLeft(LAMBDA acc, x : DivStep(b, nb, acc, x), << <<>>, Zeros(nb) >>, Reverse(a))
  IN  << Norm(res[1]), Shr(res[2], s) >>
DivMod(a, b) ==
  LET nb == NormLen(b, Len(b)) IN
  IF nb <= 2 THEN LET qr == DivSmall(a, b[1] + 256 * (IF nb = 2 THEN b[2] ELSE 0)) IN << Norm(qr[1]), Norm(<<qr[2] % 256, qr[2] \div 256>>) >>
  ELSE DivLong(a, b)
=============================================================================
