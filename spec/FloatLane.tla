------------------------------ MODULE FloatLane ------------------------------
(* IEEE-754 binary32 / binary64 lanes, given by their encodings (4 or 8       *)
(* bytes).  A finite value is a record [s, m, e] = (-1)^s * m * 2^e with m a   *)
(* natural number (byte sequence); Round turns an exact (or sticky) value     *)
(* into the correctly rounded encoding, ties to even.                         *)
EXTENDS IntLane

Prec(n)  == IF n = 4 THEN 24 ELSE 53
EBits(n) == IF n = 4 THEN 8 ELSE 11
EMask(n) == IF n = 4 THEN 255 ELSE 2047
Bias(n)  == IF n = 4 THEN 127 ELSE 1023
QMin(n)  == IF n = 4 THEN -149 ELSE -1074     \* exponent of the smallest subnormal

FSign(x) == x[Len(x)] \div 128
FExp(x)  == IF Len(x) = 4 THEN (x[4] % 128) * 2 + (x[3] \div 128)
            ELSE (x[8] % 128) * 16 + (x[7] \div 16)
FFrac(x) == IF Len(x) = 4 THEN <<x[1], x[2], x[3] % 128>>
            ELSE [i \in 1..7 |-> IF i = 7 THEN x[7] % 16 ELSE x[i]]
IsNaN(x) == FExp(x) = EMask(Len(x)) /\ ~IsZero(FFrac(x))
IsInf(x) == FExp(x) = EMask(Len(x)) /\ IsZero(FFrac(x))
IsFin(x) == FExp(x) # EMask(Len(x))
IsFZero(x) == FExp(x) = 0 /\ IsZero(FFrac(x))
IsNormal(x) == FExp(x) # 0 /\ IsFin(x)

WithHidden(x) == IF Len(x) = 4 THEN [FFrac(x) EXCEPT ![3] = @ + 128]
                 ELSE [FFrac(x) EXCEPT ![7] = @ + 16]
Dec(x) == LET n == Len(x) IN
  IF FExp(x) = 0 THEN [s |-> FSign(x), m |-> Norm(FFrac(x)), e |-> QMin(n)]
  ELSE [s |-> FSign(x), m |-> WithHidden(x), e |-> FExp(x) - 1 + QMin(n)]

\* assemble an encoding of n bytes from sign, biased exponent and fraction bytes
Enc(n, s, ex, fr) ==
  IF n = 4
  THEN << At(fr,1), At(fr,2), (At(fr,3) % 128) + (ex % 2) * 128, (ex \div 2) + 128 * s >>
  ELSE << At(fr,1), At(fr,2), At(fr,3), At(fr,4), At(fr,5), At(fr,6),
          (At(fr,7) % 16) + (ex % 16) * 16, (ex \div 16) + 128 * s >>
FZero(n, s) == Enc(n, s, 0, <<>>)
FInf(n, s)  == Enc(n, s, EMask(n), <<>>)

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

(* The correctly rounded encoding of (-1)^s * (m + d) * 2^e, where d = 0 if   *)
(* ~sticky and 0 < d < 1 otherwise (then m must have at least Prec+2 bits).   *)
Round(n, s, m, e, sticky) ==
  LET bl == BitLen(m)
      p  == Prec(n)
  IN  IF bl = 0 THEN FZero(n, s)
      ELSE
      LET q0 == Max2(e + bl - p, QMin(n))
          k  == q0 - e
          kept0 == IF k <= 0 THEN Shl(m, -k) ELSE Shr(m, k)
          half  == k > 0 /\ Bit(m, k-1) = 1
          rest  == sticky \/ (k > 1 /\ ~LowZero(m, k-1))
          up    == half /\ (rest \/ Bit(kept0, 0) = 1)
          kept1 == IF up THEN Add(kept0, <<1>>) ELSE kept0
          ovf   == BitLen(kept1) > p
          kept  == IF ovf THEN Shr(kept1, 1) ELSE kept1
          q     == IF ovf THEN q0 + 1 ELSE q0
          ex    == IF BitLen(kept) < p THEN 0 ELSE q - QMin(n) + 1
      IN  IF ex >= EMask(n) THEN FInf(n, s) ELSE Enc(n, s, ex, kept)

\* -1, 0, 1 comparing the magnitudes m1*2^e1 and m2*2^e2
CmpMag(m1, e1, m2, e2) ==
  LET t1 == BitLen(m1) + e1
      t2 == BitLen(m2) + e2
  IN  IF BitLen(m1) = 0 \/ BitLen(m2) = 0
      THEN (IF BitLen(m1) = 0 THEN (IF BitLen(m2) = 0 THEN 0 ELSE -1) ELSE 1)
      ELSE IF t1 # t2 THEN (IF t1 < t2 THEN -1 ELSE 1)
      ELSE IF e1 >= e2 THEN Cmp(Shl(m1, e1-e2), m2) ELSE Cmp(m1, Shl(m2, e2-e1))

(* Rounded sum of two finite values (not both zero handled by the caller for  *)
(* the sign of an exact zero).  Operands far apart are replaced by a sticky   *)
(* remainder.                                                                 *)
SumRound(n, x, y, zs) ==
  LET hi == IF x.e >= y.e THEN x ELSE y
      lo == IF x.e >= y.e THEN y ELSE x
      d  == hi.e - lo.e
  IN  IF BitLen(hi.m) = 0 THEN (IF BitLen(lo.m) = 0 THEN FZero(n, zs) ELSE Round(n, lo.s, lo.m, lo.e, FALSE))
      ELSE IF BitLen(lo.m) = 0 THEN Round(n, hi.s, hi.m, hi.e, FALSE)
      ELSE IF d > 240
      THEN LET M == Shl(hi.m, 64)
           IN  Round(n, hi.s, IF hi.s = lo.s THEN M ELSE Sub(M, <<1>>), hi.e - 64, TRUE)
      ELSE LET a == Shl(hi.m, d)
               c == Cmp(a, lo.m)
           IN  IF hi.s = lo.s THEN Round(n, hi.s, Add(a, lo.m), lo.e, FALSE)
               ELSE IF c = 0 THEN FZero(n, zs)
               ELSE IF c > 0 THEN Round(n, hi.s, Sub(a, lo.m), lo.e, FALSE)
               ELSE Round(n, lo.s, Sub(lo.m, a), lo.e, FALSE)

NaNOf(n) == Enc(n, 0, EMask(n), [i \in 1..7 |-> IF (n = 4 /\ i = 3) THEN 64 ELSE IF (n = 8 /\ i = 7) THEN 8 ELSE 0])
\* equality of results: NaN payloads and signs are not specified
FSame(x, y) == x = y \/ (IsNaN(x) /\ IsNaN(y))

FNeg(x) == [x EXCEPT ![Len(x)] = (@ + 128) % 256]
FAbs(x) == [x EXCEPT ![Len(x)] = @ % 128]

FAdd(x, y) ==
  LET n == Len(x) IN
  IF IsNaN(x) \/ IsNaN(y) THEN NaNOf(n)
  ELSE IF IsInf(x) THEN (IF IsInf(y) /\ FSign(x) # FSign(y) THEN NaNOf(n) ELSE x)
  ELSE IF IsInf(y) THEN y
  ELSE SumRound(n, Dec(x), Dec(y), IF FSign(x) = 1 /\ FSign(y) = 1 THEN 1 ELSE 0)
FSub(x, y) == IF IsNaN(y) THEN NaNOf(Len(x)) ELSE FAdd(x, FNeg(y))
SXor(x, y) == (FSign(x) + FSign(y)) % 2
FMul(x, y) ==
  LET n == Len(x) IN
  IF IsNaN(x) \/ IsNaN(y) THEN NaNOf(n)
  ELSE IF IsInf(x) \/ IsInf(y)
       THEN (IF IsFZero(x) \/ IsFZero(y) THEN NaNOf(n) ELSE FInf(n, SXor(x, y)))
  ELSE LET a == Dec(x)  b == Dec(y) IN Round(n, SXor(x, y), Norm(Mul(a.m, b.m)), a.e + b.e, FALSE)
FDiv(x, y) ==
  LET n == Len(x) IN
  IF IsNaN(x) \/ IsNaN(y) THEN NaNOf(n)
  ELSE IF IsInf(x) THEN (IF IsInf(y) THEN NaNOf(n) ELSE FInf(n, SXor(x, y)))
  ELSE IF IsInf(y) THEN FZero(n, SXor(x, y))
  ELSE IF IsFZero(y) THEN (IF IsFZero(x) THEN NaNOf(n) ELSE FInf(n, SXor(x, y)))
  ELSE IF IsFZero(x) THEN FZero(n, SXor(x, y))
  ELSE LET a == Dec(x)
           b == Dec(y)
           k == Max2(0, Prec(n) + 3 + BitLen(b.m) - BitLen(a.m))
           qr == DivMod(Shl(a.m, k), b.m)
       IN  Round(n, SXor(x, y), qr[1], a.e - k - b.e, ~IsZero(qr[2]))
\* exact remainder of truncating division, sign of the dividend
FRem(x, y) ==
  LET n == Len(x) IN
  IF IsNaN(x) \/ IsNaN(y) \/ IsInf(x) \/ IsFZero(y) THEN NaNOf(n)
  ELSE IF IsInf(y) \/ IsFZero(x) THEN x
  ELSE LET a == Dec(x)
           b == Dec(y)
           e == Min2(a.e, b.e)
           r == DivMod(Shl(a.m, a.e - e), Shl(b.m, b.e - e))[2]
       IN  Round(n, FSign(x), r, e, FALSE)
FFma(x, y, z) ==
  LET n == Len(x) IN
  IF IsNaN(x) \/ IsNaN(y) \/ IsNaN(z) THEN NaNOf(n)
  ELSE IF IsInf(x) \/ IsInf(y)
  THEN (IF IsFZero(x) \/ IsFZero(y) \/ (IsInf(z) /\ FSign(z) # SXor(x, y)) THEN NaNOf(n)
        ELSE FInf(n, SXor(x, y)))
  ELSE IF IsInf(z) THEN z
  ELSE LET a == Dec(x)
           b == Dec(y)
           c == Dec(z)
           pr == [s |-> SXor(x, y), m |-> Norm(Mul(a.m, b.m)), e |-> a.e + b.e]
       IN  SumRound(n, pr, c, IF pr.s = 1 /\ c.s = 1 THEN 1 ELSE 0)

(* r is the correctly rounded square root of x: its neighbouring midpoints    *)
(* bracket x (a midpoint squared is never representable, so no ties).         *)
FSqrtOK(x, r) ==
  IF IsNaN(x) \/ (FSign(x) = 1 /\ ~IsFZero(x)) THEN IsNaN(r)
  ELSE IF IsInf(x) \/ IsFZero(x) THEN r = x
  ELSE /\ IsNormal(r) /\ FSign(r) = 0
       /\ LET a == Dec(x)
              b == Dec(r)
              up == Add(Shl(b.m, 2), <<2>>)             \* r + ulp/2, in units of ulp/4
              pow == IsZero(FFrac(r))                   \* r is a power of two
              dn == Sub(Shl(b.m, 2), IF pow THEN <<1>> ELSE <<2>>)
          IN  /\ CmpMag(a.m, a.e, Mul(up, up), 2*b.e - 4) < 0
              /\ CmpMag(Mul(dn, dn), 2*b.e - 4, a.m, a.e) < 0

\* order of two non-NaN values: -1, 0, 1
FCmp(x, y) ==
  IF IsFZero(x) /\ IsFZero(y) THEN 0
  ELSE IF FSign(x) # FSign(y) THEN (IF FSign(x) = 1 THEN -1 ELSE 1)
  ELSE IF FSign(x) = 0 THEN Cmp(x, y) ELSE Cmp(y, x)
FUnord(x, y) == IsNaN(x) \/ IsNaN(y)
FLt(x, y) == ~FUnord(x, y) /\ FCmp(x, y) < 0
FLe(x, y) == ~FUnord(x, y) /\ FCmp(x, y) <= 0
FEq(x, y) == ~FUnord(x, y) /\ FCmp(x, y) = 0

\* r is an acceptable min (max): the smaller (larger) operand, either one when
\* they compare equal, the other operand when one is NaN
FMinOK(x, y, r) ==
  IF IsNaN(x) /\ IsNaN(y) THEN IsNaN(r)
  ELSE IF IsNaN(x) THEN r = y ELSE IF IsNaN(y) THEN r = x
  ELSE IF FCmp(x, y) = 0 THEN r \in {x, y} ELSE r = IF FCmp(x, y) < 0 THEN x ELSE y
FMaxOK(x, y, r) ==
  IF IsNaN(x) /\ IsNaN(y) THEN IsNaN(r)
  ELSE IF IsNaN(x) THEN r = y ELSE IF IsNaN(y) THEN r = x
  ELSE IF FCmp(x, y) = 0 THEN r \in {x, y} ELSE r = IF FCmp(x, y) > 0 THEN x ELSE y

(* Distance of two encodings in units in the last place, as a byte sequence:  *)
(* encodings are mapped to consecutive naturals along the real line.          *)
Ordinal(x) == LET n == Len(x) IN
  IF FSign(x) = 0 THEN AddN(x, MinL(n), n+1) ELSE SubN(MinL(n), FAbs(x), n+1)
UlpDist(x, y) == LET a == Ordinal(x)  b == Ordinal(y) IN IF Lt(a, b) THEN Sub(b, a) ELSE Sub(a, b)
Within(x, y, k) == FSame(x, y) \/ (IsFin(x) /\ IsFin(y) /\ Le(UlpDist(x, y), FromInt(k, 4)))

------------------------------------------------------------------------------
(* Conversions.                                                               *)
IntToFloat(sg, a, n) == Round(n, IF Neg(sg, a) THEN 1 ELSE 0, Norm(Mag(sg, a)), 0, FALSE)
FloatToFloat(x, n) ==
  IF IsNaN(x) THEN NaNOf(n) ELSE IF IsInf(x) THEN FInf(n, FSign(x))
  ELSE LET a == Dec(x) IN Round(n, a.s, a.m, a.e, FALSE)
TruncMag(x) == LET a == Dec(x) IN IF a.e >= 0 THEN Shl(a.m, a.e) ELSE Shr(a.m, -a.e)
\* does the truncated value fit in an n-byte integer?
FitsInt(x, sg, n) ==
  /\ IsFin(x)
  /\ LET t == TruncMag(x) IN
     IF FSign(x) = 1 /\ BitLen(t) > 0 THEN sg /\ Le(t, MinL(n))
     ELSE BitLen(t) <= (IF sg THEN 8*n - 1 ELSE 8*n)
FloatToInt(x, n) == LET t == Ext(TruncMag(x), n) IN IF FSign(x) = 1 THEN WNeg(t) ELSE t
=============================================================================
