------------------------------- MODULE SimdLaws ------------------------------
(* The properties themselves, checked on the specification: TLC enumerates    *)
(* operand tuples (small lanes exhaustively in the thorough tier, edge values *)
(* of wider lanes) and evaluates the laws in every state.  This is what ties  *)
(* the byte-level definitions the traces are judged by to ordinary            *)
(* arithmetic, and each stated property to the transition relation.           *)
EXTENDS SimdOps, SimdFmt, SimdMath, IOUtils

VARIABLES a, b         \* operand lanes; b = <<>> until chosen
vars == <<a, b>>
Thorough == "VERIF_TIER" \in DOMAIN IOEnv /\ IOEnv.VERIF_TIER = "thorough"

\* operands: byte pairs, then pairs of edge values of wider lanes
QBytes == {x \in Byte : x % 17 = 0} \cup {1, 2, 3, 7, 8, 126, 127, 128, 129, 254}
SomeBytes == IF Thorough THEN Byte ELSE QBytes
E8 == IF Thorough THEN {0, 1, 2, 127, 128, 254, 255} ELSE {0, 1, 128, 255}
Z8 == IF Thorough THEN {0, 1, 127, 128, 255} ELSE {0, 127, 128, 255}
Wide(n) == { [i \in 1..n |-> IF i = 1 THEN x ELSE IF i = n THEN z ELSE y] : x \in E8, y \in {0, 255}, z \in Z8 }
IntInit(ns) == /\ \/ \E x \in Byte : a = <<x>>
                  \/ \E n \in ns : a \in Wide(n)
               /\ b = <<>>
IntNext == b = <<>> /\ b' \in (IF Len(a) = 1 THEN {<<y>> : y \in SomeBytes} ELSE Wide(Len(a))) /\ a' = a
FmtInit == ((\E x \in Byte : a = <<x>>) \/ a \in Wide(2) \/ a \in Wide(IF Thorough THEN 16 ELSE 8)) /\ b = <<>>
FmtNext == b = <<>> /\ b' \in {<<2>>, <<8>>, <<10>>, <<16>>} /\ a' = a
Ready == b # <<>>

U1(x) == x[1]
S1(x) == IF x[1] >= 128 THEN x[1] - 256 ELSE x[1]
V1(sg, x) == IF sg THEN S1(x) ELSE U1(x)
Enc1(k) == <<k % 256>>
Trunc(x, y) == LET q == (IF x < 0 THEN -x ELSE x) \div (IF y < 0 THEN -y ELSE y)
               IN  IF (x < 0) # (y < 0) THEN -q ELSE q

------------------------------------------------------------------------------
(* C01 *)
LawArith8 ==
  Ready /\ Len(a) = 1 =>
  \A sg \in BOOLEAN :
    LET x == V1(sg, a)  y == V1(sg, b) IN
    /\ IntBin("add", sg, a, b) = Enc1(x + y)
    /\ IntBin("sub", sg, a, b) = Enc1(x - y)
    /\ IntBin("mul", sg, a, b) = Enc1(x * y)
    /\ DivDefined(sg, a, b) <=> (y # 0 /\ ~(x = -128 /\ y = -1))
    /\ DivDefined(sg, a, b) => /\ IntBin("div", sg, a, b) = Enc1(Trunc(x, y))
                               /\ IntBin("rem", sg, a, b) = Enc1(x - y * Trunc(x, y))
    /\ IntBin("min", sg, a, b) = Enc1(IF x < y THEN x ELSE y)
    /\ IntBin("max", sg, a, b) = Enc1(IF x > y THEN x ELSE y)
    /\ IntBin("neg", sg, a, b) = Enc1(-x)
LawArithWide ==
  Ready => \A sg \in BOOLEAN :
    /\ WAdd(WSub(a, b), b) = a
    /\ WAdd(a, WNeg(a)) = ZeroL(a)
    /\ WMul(a, b) = WMul(b, a)
    /\ WMul(a, WAdd(b, OneL(Len(b)))) = WAdd(WMul(a, b), a)
    /\ DivDefined(sg, a, b) =>
         LET q == WDiv(sg, a, b)  r == WRem(sg, a, b) IN
         /\ WAdd(WMul(q, b), r) = a
         /\ Lt(Mag(sg, r), Mag(sg, b))
         /\ ~IsZero(r) => Neg(sg, r) = Neg(sg, a)
    /\ CmpL(sg, MinOf(sg, a, b), MaxOf(sg, a, b)) <= 0
    /\ {MinOf(sg, a, b), MaxOf(sg, a, b)} = {a, b}
InitInt == IntInit({2, 4, 8})
InitInt16 == IntInit({2, 16})

------------------------------------------------------------------------------
(* C02 *)
BitsOf(x) == [k \in 0..(Bits(x)-1) |-> Bit(x, k)]
LawBitwise ==
  Ready =>
  /\ \A k \in 0..(Bits(a)-1) :
       /\ Bit(BAnd(a, b), k) = Bit(a, k) * Bit(b, k)
       /\ Bit(BOr(a, b), k) = Max2(Bit(a, k), Bit(b, k))
       /\ Bit(BXor(a, b), k) = (Bit(a, k) + Bit(b, k)) % 2
       /\ Bit(BNot(a), k) = 1 - Bit(a, k)
  /\ LET w == Bits(a)
         k == b[1] % w
     IN  /\ \A i \in 0..(w-1) :
              /\ Bit(LShl(a, k), i) = (IF i >= k THEN Bit(a, i-k) ELSE 0)
              /\ Bit(LShr(FALSE, a, k), i) = (IF i+k < w THEN Bit(a, i+k) ELSE 0)
              /\ Bit(LShr(TRUE, a, k), i) = (IF i+k < w THEN Bit(a, i+k) ELSE Bit(a, w-1))
              /\ Bit(RotL(a, RotCount(a, b)), (i+k) % w) = Bit(a, i)
         /\ RotR(RotL(a, RotCount(a, b)), RotCount(a, b)) = a
         /\ CountOnes(RotL(a, k)) = CountOnes(a)

------------------------------------------------------------------------------
(* C15 *)
LawCounts ==
  LET w == Bits(a) IN
  /\ CountOnes(a) + CountZeros(a) = w
  /\ CountOnes(a) = FoldLeft(LAMBDA n, k : n + Bit(a, k-1), 0, Idx(w))
  /\ \A k \in 0..(w-1) : (k >= w - LeadingZeros(a) => Bit(a, k) = 0)
  /\ LeadingZeros(a) < w => Bit(a, w - 1 - LeadingZeros(a)) = 1
  /\ \A k \in 0..(w-1) : (k < TrailingZeros(a) => Bit(a, k) = 0)
  /\ TrailingZeros(a) < w => Bit(a, TrailingZeros(a)) = 1
  /\ (IsZero(a)) <=> LeadingZeros(a) = w
  /\ (IsZero(a)) <=> TrailingZeros(a) = w
  /\ Ready => Le(BAnd(a, BNot(a)), b)

Cardinality3(x, y, z) == (IF x THEN 1 ELSE 0) + (IF y THEN 1 ELSE 0) + (IF z THEN 1 ELSE 0)
OrdBytes == IF Thorough THEN {0, 1, 2, 127, 128, 129, 254, 255} ELSE {0, 1, 127, 128, 255}
------------------------------------------------------------------------------
(* C03, C04, C08: floats.  Encodings around every boundary of the format.     *)
F32E == {0, 1, 2, 126, 127, 128, 129, 150, 151, 253, 254, 255}
F64E == {0, 1, 2, 1022, 1023, 1024, 1075, 1076, 2045, 2046, 2047}
F32F == { <<0,0,0>>, <<1,0,0>>, <<255,255,127>>, <<0,0,64>>, <<171,170,42>> }
F64F == { <<0,0,0,0,0,0,0>>, <<1,0,0,0,0,0,0>>, <<255,255,255,255,255,255,15>>, <<0,0,0,0,0,0,8>> }
QF32E == {0, 1, 127, 150, 254, 255}
QF64E == {0, 1023, 1076, 2046, 2047}
QF32F == { <<0,0,0>>, <<255,255,127>>, <<171,170,42>> }
QF64F == { <<0,0,0,0,0,0,0>>, <<255,255,255,255,255,255,15>> }
F32s == { Enc(4, s, e, f) : s \in {0, 1}, e \in (IF Thorough THEN F32E ELSE QF32E), f \in (IF Thorough THEN F32F ELSE QF32F) }
F64s == { Enc(8, s, e, f) : s \in {0, 1}, e \in (IF Thorough THEN F64E ELSE QF64E), f \in (IF Thorough THEN F64F ELSE QF64F) }
FloatInit == (a \in F32s \/ a \in F64s) /\ b = <<>>
FloatNext == b = <<>> /\ b' \in (IF Len(a) = 4 THEN F32s ELSE F64s) /\ a' = a
FIsOne(n) == Enc(n, 0, Bias(n), <<>>)
LawFloat ==
  Ready =>
  LET n == Len(a) one == FIsOne(n) IN
  /\ FSame(FAdd(a, b), FAdd(b, a))
  /\ FSame(FMul(a, b), FMul(b, a))
  /\ FSame(FMul(a, one), IF IsNaN(a) THEN NaNOf(n) ELSE a)
  /\ FSame(FDiv(a, one), IF IsNaN(a) THEN NaNOf(n) ELSE a)
  /\ FSame(FAdd(a, FZero(n, 1)), IF IsNaN(a) THEN NaNOf(n) ELSE a)
  /\ FSame(FSub(a, b), FNeg(FSub(b, a))) \/ IsFZero(FSub(a, b))
  /\ FSame(FFma(a, one, b), FAdd(a, b))
  /\ FSame(FFma(a, b, FZero(n, SXor(a, b))), FMul(a, b)) \/ IsNaN(FMul(a, b)) \/ IsFZero(FMul(a, b))
  /\ (IsFin(a) => FSub(a, a) = FZero(n, 0))
  /\ (IsFin(a) /\ IsFin(b) /\ ~IsFZero(b) /\ (Thorough \/ FExp(a) - FExp(b) < 160)) =>
        /\ FCmp(FAbs(FRem(a, b)), FAbs(b)) < 0          \* |a rem b| < |b|, sign of a
        /\ FSign(FRem(a, b)) = FSign(a)
        /\ FLe(FAbs(FRem(a, b)), FAbs(a))
  /\ (IsFin(a) /\ ~IsFZero(a)) => FDiv(a, a) = one
  /\ FNeg(FNeg(a)) = a /\ FAbs(FNeg(a)) = FAbs(a)
  \* monotone: a <= b implies a + 1 <= b + 1
  /\ FLe(a, b) => (FLe(FAdd(a, one), FAdd(b, one)) \/ FUnord(FAdd(a, one), FAdd(b, one)))
  \* min and max admit exactly the documented operand
  /\ \A r \in {a, b} : (FMinOK(a, b, r) /\ ~FUnord(a, b)) => FLe(r, a) /\ FLe(r, b)
  /\ (IsNaN(a) /\ ~IsNaN(b)) => FMinOK(a, b, b) /\ FMaxOK(a, b, b) /\ ~FMinOK(a, b, a) /\ ~FMaxOK(a, b, a)
  /\ (~IsNaN(a) /\ ~IsNaN(b)) => (\E r \in {a, b} : FMinOK(a, b, r)) /\ (\E r \in {a, b} : FMaxOK(a, b, r))
  \* the square root relation admits at most one neighbour: r and its successor cannot both pass
  /\ (IsFin(a) /\ ~IsNaN(b) /\ IsFin(b) /\ FSqrtOK(a, b)) => (IsFZero(a) \/ ~FSqrtOK(a, AddN(b, OneL(n), n)))
LawFloatOrder ==
  Ready =>
  LET T == [k |-> "f", w |-> Len(a), n |-> 1]
      rel(op) == LaneRel(op, T, a, b)
      rev(op) == LaneRel(op, T, b, a)
  IN
  /\ rel("veq") = ~rel("vne")
  /\ FUnord(a, b) => ~rel("veq") /\ ~rel("vlt") /\ ~rel("vle") /\ ~rel("vgt") /\ ~rel("vge") /\ rel("vne")
  /\ ~FUnord(a, b) => /\ Cardinality3(rel("vlt"), rel("veq"), rel("vgt")) = 1
                      /\ rel("vle") = (rel("vlt") \/ rel("veq"))
                      /\ rel("vge") = (rel("vgt") \/ rel("veq"))
  /\ rel("vlt") = rev("vgt") /\ rel("vle") = rev("vge")
  /\ (IsFZero(a) /\ IsFZero(b)) => rel("veq")
  \* classification partitions the encodings
  /\ ClassOf("is_finite", a) = ~(ClassOf("is_nan", a) \/ ClassOf("is_infinite", a))
  /\ ~(ClassOf("is_nan", a) /\ ClassOf("is_infinite", a))
  /\ ClassOf("is_nan", a) = ~LaneRel("veq", T, a, a)

------------------------------------------------------------------------------
(* C04/C05 on integers and masks: total order, coherence with ==; two-lane    *)
(* byte vectors a, b and the derived vector c (lanes of b swapped).           *)
VecInit == (\E x, y \in OrdBytes : a = <<x, y>>) /\ b = <<>>
VecNext == b = <<>> /\ (\E x, y \in OrdBytes : b' = <<x, y>>) /\ a' = a
LawOrder ==
  Ready => \A k \in {"i", "u"} :
    LET T == [k |-> k, w |-> 1, n |-> 2]
        c == <<b[2], b[1]>>
        L(x, y) == Lex(T, x, y)
    IN
    /\ L(a, b) = -L(b, a)                                   \* antisymmetric, total
    /\ (L(a, b) = 0) <=> VecEq(T, a, b)                     \* coherent with ==
    /\ VecEq(T, a, b) <=> a = b
    /\ (L(a, b) <= 0 /\ L(b, c) <= 0) => L(a, c) <= 0       \* transitive
    /\ (L(c, a) <= 0 /\ L(a, b) <= 0) => L(c, b) <= 0
    /\ VecEq(T, a, b) <=> (FromInt(2, 8) \o a = FromInt(2, 8) \o b)   \* equal vectors feed equal bytes
    \* the first lane dominates
    /\ CmpLane(T, Lane(a, 1, 1), Lane(b, 1, 1)) # 0 => L(a, b) = CmpLane(T, Lane(a, 1, 1), Lane(b, 1, 1))
    /\ \A op \in {"vlt", "vgt"} : LaneRel(op, T, Lane(a,1,1), Lane(b,1,1)) =>
          ~LaneRel("veq", T, Lane(a,1,1), Lane(b,1,1)) /\ LaneRel("vne", T, Lane(a,1,1), Lane(b,1,1))

------------------------------------------------------------------------------
(* C06: every 4-lane mask (a) against every other (b).                        *)
M4 == [k |-> "m", w |-> 1, n |-> 4]
I4 == [k |-> "i", w |-> 1, n |-> 4]
AllM4 == { [i \in 1..4 |-> IF i \in S THEN 255 ELSE 0] : S \in SUBSET (1..4) }
MaskInit == a \in AllM4 /\ b = <<>>
MaskNext == b = <<>> /\ b' \in AllM4 /\ a' = a
LawMask ==
  Ready =>
  /\ AllOf(M4, a) = ~AnyOf(M4, BNot(a))
  /\ AnyOf(M4, a) = (a # Zeros(4)) /\ AllOf(M4, a) = (a = Ones(4))
  /\ AllOf(M4, BAnd(a, b)) = (AllOf(M4, a) /\ AllOf(M4, b))
  /\ AnyOf(M4, BOr(a, b)) = (AnyOf(M4, a) \/ AnyOf(M4, b))
  /\ \E r \in 0..15 : BitMask([p |-> 0, r |-> <<r>>, a |-> a], M4) /\ \A q \in Byte : BitMask([p |-> 0, r |-> <<q>>, a |-> a], M4) => q = r
  /\ LET sel(m, x, y) == [i \in 1..4 |-> IF m[i] = 255 THEN x[i] ELSE y[i]]
         x == <<1, 2, 3, 4>>  y == <<5, 6, 7, 8>>
     IN  /\ Select([p |-> 0, r |-> sel(a, x, y), a |-> a, b |-> x, c |-> y], M4, I4)
         /\ Select([p |-> 0, r |-> sel(BNot(a), y, x), a |-> a, b |-> x, c |-> y], M4, I4)
         /\ (a # b) => ~Select([p |-> 0, r |-> sel(b, x, y), a |-> a, b |-> x, c |-> y], M4, I4)
  /\ MReduce([p |-> 0, op |-> "rxor", r |-> BoolByte((CountTrue(M4, a) + CountTrue(M4, b)) % 2 = 1), a |-> BXor(a, b)], M4)

------------------------------------------------------------------------------
(* C07 / C08: reductions of four-byte-lane vectors are permutation invariant  *)
(* and agree with ordinary integers.                                          *)
RedBytes == {0, 1, 2, 127, 128, 255}
RedInit == (\E x, y \in RedBytes : a = <<x, y>>) /\ b = <<>>
RedNext == b = <<>> /\ (\E x, y \in RedBytes : b' = <<x, y>>) /\ a' = a
LawReduce ==
  Ready => \A sg \in BOOLEAN :
  LET T == [k |-> IF sg THEN "i" ELSE "u", w |-> 1, n |-> 4]
      v == a \o b
      vals == [i \in 1..4 |-> V1(sg, <<v[i]>>)]
      perm == <<v[3], v[1], v[4], v[2]>>
  IN
  /\ \A op \in IRedOps : IRed(op, T, v) = IRed(op, T, perm)
  /\ IRed("wsum", T, v) = Enc1(vals[1] + vals[2] + vals[3] + vals[4])
  /\ IRed("wprod", T, v) = Enc1((vals[1] * vals[2] % 256) * (vals[3] * vals[4] % 256))
  /\ LET m == V1(sg, IRed("rmin", T, v))  x == V1(sg, IRed("rmax", T, v)) IN
     /\ \A i \in 1..4 : m <= vals[i] /\ vals[i] <= x
     /\ (\E i \in 1..4 : m = vals[i]) /\ (\E i \in 1..4 : x = vals[i])
LawFloatReduce ==
  Ready =>
  LET n == Len(a)
      T == [k |-> "f", w |-> n, n |-> 2]
      v == a \o b
      FR(op, r) == FReduce([op |-> op, p |-> 0, a |-> v, r |-> r], T)
  IN
  /\ FR("fsum", FAdd(a, b)) /\ FR("fprod", FMul(a, b))
  /\ (IsNaN(a) \/ IsNaN(b)) => ~FR("fsum", FZero(n, 0)) /\ ~FR("fprod", FZero(n, 0))
  /\ (~IsNaN(a) \/ ~IsNaN(b)) => \A op \in {"rmin", "rmax"} : ~FR(op, NaNOf(n))
  /\ \A r \in {a, b} : (FR("rmin", r) /\ ~FUnord(a, b)) => FMinOK(a, b, r)

------------------------------------------------------------------------------
(* C12: shuffles compose; a permutation and its inverse cancel.               *)
Perms4 == { p \in [1..4 -> 0..3] : \A i, j \in 1..4 : i # j => p[i] # p[j] }
ShufInit == a \in [1..4 -> 0..3] /\ b = <<>>
ShufNext == b = <<>> /\ b' \in (IF Thorough THEN [1..4 -> 0..3] ELSE Perms4) /\ a' = a
LawShuffle ==
  Ready =>
  LET src == <<17, 34, 51, 68>>
      T == [k |-> "u", w |-> 1, n |-> 4]
      app(v, x) == [j \in 1..4 |-> v[x[j] + 1]]
  IN
  /\ Shuffle([p |-> 0, r |-> app(src, a), x |-> a, a |-> src, b |-> src, seen |-> <<1>>, two |-> 0], T, T)
  /\ ShuffleDyn([p |-> 0, r |-> app(src, a), b |-> a, a |-> src], T)
  /\ app(app(src, a), b) = app(src, app(a, b))
  /\ (\A i \in 1..4 : app(a, b)[i] = i - 1) => app(app(src, a), b) = src
  /\ (a # b) => ~ShuffleDyn([p |-> 0, r |-> app(src, b), b |-> a, a |-> src], T)

------------------------------------------------------------------------------
(* C13: integer conversions round-trip through wider lanes and floats.        *)
LawCastInt ==
  \A n \in {1, 2, 4, 8, 16} : n >= Len(a) =>
    /\ Ext(SExt(a, n), Len(a)) = a /\ Ext(Ext(a, n), Len(a)) = a
    /\ \A sg \in BOOLEAN :
         LET x == IF sg THEN SExt(a, n) ELSE Ext(a, n) IN
         Neg(sg, x) = Neg(sg, a) /\ Norm(Mag(sg, x)) = Norm(Mag(sg, a))
LawCastFloat ==
  \A sg \in BOOLEAN : \A n \in {4, 8} :
    LET f == IntToFloat(sg, a, n) IN
    (8 * Len(a) <= Prec(n)) => FitsInt(f, sg, Len(a)) /\ FloatToInt(f, Len(a)) = a
LawCastFF ==
  /\ Len(a) = 4 => FSame(FloatToFloat(FloatToFloat(a, 8), 4), a)
  /\ (Ready /\ Len(a) = 8) => (FLe(a, b) => FLe(FloatToFloat(a, 4), FloatToFloat(b, 4)))
  /\ \A n \in {1, 2, 4, 8} : \A sg \in BOOLEAN :
       FitsInt(a, sg, n) => LET t == FloatToInt(a, n) IN
         FLe(FAbs(IntToFloat(sg, t, Len(a))), FAbs(a))        \* truncation never grows

------------------------------------------------------------------------------
(* C14 / C17 *)
LawBytes == Ready => /\ Reverse(Reverse(a)) = a
                     /\ SwapBytes([p |-> 0, r |-> Reverse(a), a |-> a])
PWide(n) == { [i \in 1..n |-> IF i = 1 THEN x ELSE IF i = n THEN z ELSE y] : x \in {0, 4, 8, 252, 255}, y \in {0, 1, 255}, z \in {0, 127, 255} }
PtrInit == a \in PWide(8) /\ b = <<>>
PtrNext == b = <<>> /\ b' \in PWide(8) /\ a' = a
LawPtr ==
  Ready => \A z \in {1, 2, 4, 8, 12, 16} :
    LET off == PtrLane("p_offset", a, b, z)
        back == PtrLane("p_sub", off, b, z)
        small == WDiv(TRUE, b, FromInt(2*z, 8))          \* |count * z| < 2^63
        moved == PtrLane("p_offset", a, small, z)
    IN
    /\ back = a
    /\ PtrLane("p_add", a, b, z) = off
    /\ PtrLane("p_offset_from", moved, a, z) = small
    /\ PtrLane("p_offset_from", a, a, z) = ZeroL(a)

------------------------------------------------------------------------------
(* C16: decimal, hexadecimal, octal and binary texts read back as the number. *)
DigitVal(ch) == CHOOSE k \in 0..15 : DigitsLo[k+1] = ch \/ DigitsUp[k+1] = ch
RECURSIVE ReadBack(_, _, _)
ReadBack(s, base, i) ==           \* value of the first i characters
  IF i = 0 THEN <<>> ELSE Add(Mul(ReadBack(s, base, i-1), <<base>>), <<DigitVal(SubSeq(s, i, i))>>)
LawDigits ==
  Ready => \A tab \in (IF b[1] = 16 THEN {DigitsLo, DigitsUp} ELSE {DigitsLo}) :
    LET base == b[1]
        s == Number(a, base, tab) IN
    /\ Norm(ReadBack(s, base, Len(s))) = Norm(a)
    /\ (Len(s) > 1 => SubSeq(s, 1, 1) # "0")
LawPad ==
  b = <<10>> => \A wd \in {-1, 0, 3, 9} : \A al \in 0..3 : \A zero \in {0, 1} :
    LET ev == [op |-> "debug", wd |-> wd, al |-> al, zero |-> zero, plus |-> 0, alt |-> 0, fl |-> "*"]
        T  == [k |-> "i", w |-> Len(a), n |-> 1]
        t  == IntText(ev, T, a)
        t0 == IntText([ev EXCEPT !.wd = -1, !.zero = 0], T, a)
    IN  Len(t) = Max2(wd, Len(t0))

------------------------------------------------------------------------------
(* C19: the ulp distance is a metric on finite encodings.                     *)
LawUlp ==
  (Ready /\ IsFin(a) /\ IsFin(b)) =>
    /\ UlpDist(a, b) = UlpDist(b, a)
    /\ IsZero(UlpDist(a, b)) <=> (a = b \/ (IsFZero(a) /\ IsFZero(b)))
    /\ FLt(a, b) <=> Lt(Ordinal(a), Ordinal(b))
=============================================================================
