------------------------------- MODULE SimdOps -------------------------------
(* The pure operations of the crate on whole vectors.  A vector is its memory *)
(* image (a byte sequence); an event `ev` is one public call with its         *)
(* operands and its observed outcome: ev.p = 1 if it panicked, otherwise      *)
(* ev.r holds the bytes of the result.  For each family of operations there   *)
(* is a predicate saying which outcomes are allowed.                          *)
EXTENDS SimdTypes

\* operand lanes of a binary event; a scalar operand acts as a splat
OpA(ev, w, i) == IF ev.f = "sv" THEN ev.a ELSE Lane(ev.a, w, i)
OpB(ev, w, i) == IF ev.f \in {"vs", "as"} THEN ev.b ELSE Lane(ev.b, w, i)
Ok(ev, len) == ev.p = 0 /\ Len(ev.r) = len
OkV(ev, T) == Ok(ev, Size(T))
R(ev, T, i) == Lane(ev.r, T.w, i)
\* the type of an event: a vector type, or (t = "lane") lanes of type lk/lw collected from
\* all vector types with that lane type
TypeOf(ev) == IF ev.t = "lane" THEN [k |-> ev.lk, w |-> ev.lw, n |-> Len(ev.a) \div ev.lw] ELSE Types[ev.t]
UTypeOf(ev) == IF ev.u = "lane" THEN [k |-> ev.uk, w |-> ev.uw, n |-> Len(ev.a) \div ev.lw] ELSE Types[ev.u]
IsInt(T) == T.k \in {"i", "u"}
BoolByte(b) == IF b THEN <<1>> ELSE <<0>>

------------------------------------------------------------------------------
(* C01  integer arithmetic                                                    *)
IntBin(op, sg, a, b) ==
  CASE op = "add" -> WAdd(a, b)
    [] op = "sub" -> WSub(a, b)
    [] op = "mul" -> WMul(a, b)
    [] op = "div" -> WDiv(sg, a, b)
    [] op = "rem" -> WRem(sg, a, b)
    [] op = "min" -> MinOf(sg, a, b)
    [] op = "max" -> MaxOf(sg, a, b)
    [] op = "neg" -> WNeg(a)
ArithOps == {"add", "sub", "mul", "div", "rem", "min", "max", "neg"}
IntArith(ev, T) ==
  /\ OkV(ev, T)
  /\ \A i \in 1..T.n : R(ev, T, i) = IntBin(ev.op, Signed(T), OpA(ev, T.w, i), OpB(ev, T.w, i))

------------------------------------------------------------------------------
(* C02  bitwise, shifts, rotates; boolean operations on masks                 *)
BitBin(op, a, b) ==
  CASE op = "and" -> BAnd(a, b)
    [] op = "or"  -> BOr(a, b)
    [] op = "xor" -> BXor(a, b)
    [] op = "not" -> BNot(a)
BitOps == {"and", "or", "xor", "not"}
Bitwise1(ev, T) ==
  /\ OkV(ev, T)
  /\ \A i \in 1..T.n : R(ev, T, i) = BitBin(ev.op, OpA(ev, T.w, i), OpB(ev, T.w, i))
\* masks: lanes are booleans, scalar operands are Rust bools (one byte)
MOpA(ev, w, i) == IF ev.f = "sv" THEN ev.a[1] = 1 ELSE Lane(ev.a, w, i) = Ones(w)
MOpB(ev, w, i) == IF ev.f \in {"vs", "as"} THEN ev.b[1] = 1 ELSE Lane(ev.b, w, i) = Ones(w)
BoolBin(op, a, b) ==
  CASE op = "and" -> a /\ b
    [] op = "or"  -> a \/ b
    [] op = "xor" -> a # b
    [] op = "not" -> ~a
MaskBitwise(ev, T) ==
  /\ OkV(ev, T)
  /\ \A i \in 1..T.n : R(ev, T, i) = MaskLane(BoolBin(ev.op, MOpA(ev, T.w, i), MOpB(ev, T.w, i)), T.w)
ShiftOps == {"shl", "shr"}
ShiftLane(op, sg, a, k) == IF op = "shl" THEN LShl(a, k) ELSE LShr(sg, a, k)
Shift(ev, T) ==
  /\ OkV(ev, T)
  /\ \A i \in 1..T.n :
       LET a == Lane(ev.a, T.w, i)
           c == OpB(ev, T.w, i)
       IN  ShiftDefined(a, c) /\ R(ev, T, i) = ShiftLane(ev.op, Signed(T), a, c[1])
RotOps == {"rotl", "rotr"}
Rotate(ev, T) ==
  /\ OkV(ev, T)
  /\ \A i \in 1..T.n :
       LET a == Lane(ev.a, T.w, i)
           k == RotCount(a, Lane(ev.b, T.w, i))
       IN  R(ev, T, i) = IF ev.op = "rotl" THEN RotL(a, k) ELSE RotR(a, k)

------------------------------------------------------------------------------
(* C03  float arithmetic                                                      *)
FloatBin(op, a, b, r) ==
  CASE op = "add" -> FSame(r, FAdd(a, b))
    [] op = "sub" -> FSame(r, FSub(a, b))
    [] op = "mul" -> FSame(r, FMul(a, b))
    [] op = "div" -> FSame(r, FDiv(a, b))
    [] op = "rem" -> FSame(r, FRem(a, b))
    [] op = "min" -> FMinOK(a, b, r)
    [] op = "max" -> FMaxOK(a, b, r)
    [] op = "neg" -> FSame(r, FNeg(a))
    [] op = "abs" -> FSame(r, FAbs(a))
    [] op = "sqrt" -> FSqrtOK(a, r)
FloatUn == {"abs", "sqrt"}
FloatArith(ev, T) ==
  /\ OkV(ev, T)
  /\ \A i \in 1..T.n : FloatBin(ev.op, OpA(ev, T.w, i), OpB(ev, T.w, i), R(ev, T, i))
\* twice rounded multiply-add
MulThenAdd(a, b, c) == FAdd(FMul(a, b), c)
MulAdd(ev, T) ==
  /\ OkV(ev, T)
  /\ \A i \in 1..T.n :
       LET a == Lane(ev.a, T.w, i)  b == Lane(ev.b, T.w, i)  c == Lane(ev.c, T.w, i)
       IN  \/ FSame(R(ev, T, i), FFma(a, b, c))
           \/ ev.op = "mul_adde" /\ FSame(R(ev, T, i), MulThenAdd(a, b, c))
(* Estimates: relative error at most 2^-12, on normal inputs with normal      *)
(* results; the bounds are compared exactly, squared where a root is involved.*)
Sq(m) == Mul(m, m)
Est == {"sqrte", "rsqrte", "recpre"}
EstOK(op, x, r) ==
  LET a == Dec(x)  b == Dec(r)
      lo == <<255, 15>>   \* 4095
      hi == <<1, 16>>     \* 4097
  IN
  CASE op = "recpre" /\ IsNormal(x) /\ FExp(x) > 2 /\ FExp(x) < EMask(Len(x)) - 3 ->
         /\ IsNormal(r) /\ FSign(r) = FSign(x)
         /\ CmpMag(Mul(a.m, b.m), a.e + b.e, lo, -12) >= 0
         /\ CmpMag(Mul(a.m, b.m), a.e + b.e, hi, -12) <= 0
    [] op = "sqrte" /\ IsNormal(x) /\ FSign(x) = 0 ->
         /\ IsNormal(r) /\ FSign(r) = 0
         /\ CmpMag(Mul(Sq(b.m), <<1>>), 2*b.e, Mul(Sq(lo), a.m), a.e - 24) >= 0
         /\ CmpMag(Mul(Sq(b.m), <<1>>), 2*b.e, Mul(Sq(hi), a.m), a.e - 24) <= 0
    [] op = "rsqrte" /\ IsNormal(x) /\ FSign(x) = 0 ->
         /\ IsNormal(r) /\ FSign(r) = 0
         /\ CmpMag(Mul(Sq(b.m), a.m), 2*b.e + a.e, Sq(lo), -24) >= 0
         /\ CmpMag(Mul(Sq(b.m), a.m), 2*b.e + a.e, Sq(hi), -24) <= 0
    [] OTHER -> TRUE
Estimate(ev, T) ==
  /\ OkV(ev, T)
  /\ \A i \in 1..T.n : EstOK(ev.op, Lane(ev.a, T.w, i), R(ev, T, i))

------------------------------------------------------------------------------
(* C04  lane-wise comparisons and classification                              *)
CmpOps == {"veq", "vne", "vlt", "vle", "vgt", "vge"}
RelOf(op, c) ==                       \* c = -1, 0, 1
  CASE op \in {"veq", "eq"} -> c = 0
    [] op \in {"vne", "ne"} -> c # 0
    [] op \in {"vlt", "lt"} -> c < 0
    [] op \in {"vle", "le"} -> c <= 0
    [] op \in {"vgt", "gt"} -> c > 0
    [] op \in {"vge", "ge"} -> c >= 0
\* order of two lanes of a type (not for NaN): masks order false before true,
\* which as unsigned numbers is 0 before all-ones
CmpLane(T, a, b) == IF T.k = "f" THEN FCmp(a, b) ELSE CmpL(Signed(T), a, b)
LaneRel(op, T, a, b) ==
  IF T.k = "f" /\ FUnord(a, b) THEN op \in {"vne", "ne"} ELSE RelOf(op, CmpLane(T, a, b))
VCompare(ev, T) ==
  /\ OkV(ev, T)
  /\ \A i \in 1..T.n : R(ev, T, i) = MaskLane(LaneRel(ev.op, T, Lane(ev.a, T.w, i), Lane(ev.b, T.w, i)), T.w)
ClassOps == {"is_nan", "is_infinite", "is_finite", "is_null"}
ClassOf(op, a) ==
  CASE op = "is_nan" -> IsNaN(a)
    [] op = "is_infinite" -> IsInf(a)
    [] op = "is_finite" -> IsFin(a)
    [] op = "is_null" -> IsZero(a)
Classify(ev, T) ==
  /\ OkV(ev, T)
  /\ \A i \in 1..T.n : R(ev, T, i) = MaskLane(ClassOf(ev.op, Lane(ev.a, T.w, i)), T.w)

------------------------------------------------------------------------------
(* C05  equality, lexicographic order and hashing of whole vectors            *)
VecEq(T, a, b) == \A i \in 1..T.n : LaneRel("eq", T, Lane(a, T.w, i), Lane(b, T.w, i))
\* lexicographic comparison: the first differing lane decides
RECURSIVE LexFrom(_, _, _, _)
LexFrom(T, a, b, i) ==
  IF i > T.n THEN 0
  ELSE LET c == CmpLane(T, Lane(a, T.w, i), Lane(b, T.w, i)) IN IF c # 0 THEN c ELSE LexFrom(T, a, b, i+1)
Lex(T, a, b) == LexFrom(T, a, b, 1)
\* PartialEq and LexicographicallyOrdered: booleans are one byte; an Ordering
\* is 0, 1, 2 for Less, Equal, Greater (3 = None)
Whole(ev, T) ==
  /\ ev.p = 0
  /\ CASE ev.op = "eq" -> ev.r = BoolByte(VecEq(T, ev.a, ev.b))
       [] ev.op = "ne" -> ev.r = BoolByte(~VecEq(T, ev.a, ev.b))
       [] ev.op \in {"pcmp", "cmp"} -> ev.r = <<Lex(T, ev.a, ev.b) + 1>>
       [] ev.op = "lexeq" -> ev.r = BoolByte(VecEq(T, ev.a, ev.b))
       [] ev.op = "lexne" -> ev.r = BoolByte(~VecEq(T, ev.a, ev.b))
       [] ev.op = "lexmax" -> ev.r = IF Lex(T, ev.a, ev.b) = 1 THEN ev.a ELSE ev.b
       [] ev.op = "lexmin" -> ev.r = IF Lex(T, ev.a, ev.b) = 1 THEN ev.b ELSE ev.a
       [] OTHER -> ev.r = BoolByte(RelOf(ev.op, Lex(T, ev.a, ev.b)))
WholeOps == {"eq", "ne", "lt", "le", "gt", "ge", "pcmp", "cmp", "lexeq", "lexne", "lexmax", "lexmin"}
(* Hash: the bytes fed to the hasher are those the array of lanes feeds: its  *)
(* length (as usize), then the lanes, however they are divided into calls.    *)
(* ev.s is what the standard library feeds for the array itself.              *)
HashOK(ev, T) == ev.p = 0 /\ ev.r = ev.s /\ ev.r = FromInt(T.n, 8) \o ev.a
\* scalar masks: a, b are Rust bools
SMask(ev) ==
  LET w == ev.w
      B(x) == x[1] = 1
      n(x) == x[1]
  IN  /\ ev.p = 0
      /\ CASE ev.op = "snew" -> ev.r = MaskLane(B(ev.a), w)
           [] ev.op = "sdefault" -> ev.r = MaskLane(FALSE, w)
           [] ev.op = "stest" -> ev.r = ev.a
           [] ev.op = "scmp" -> ev.r = <<IF n(ev.a) < n(ev.b) THEN 0 ELSE IF n(ev.a) = n(ev.b) THEN 1 ELSE 2>>
           [] ev.op = "spcmp" -> ev.r = <<IF n(ev.a) < n(ev.b) THEN 0 ELSE IF n(ev.a) = n(ev.b) THEN 1 ELSE 2>>
           [] ev.op = "seq" -> ev.r = BoolByte(n(ev.a) = n(ev.b))
           [] ev.op = "sne" -> ev.r = BoolByte(n(ev.a) # n(ev.b))
           [] ev.op = "slt" -> ev.r = BoolByte(n(ev.a) < n(ev.b))
           [] ev.op = "sle" -> ev.r = BoolByte(n(ev.a) <= n(ev.b))
           [] ev.op = "sgt" -> ev.r = BoolByte(n(ev.a) > n(ev.b))
           [] ev.op = "sge" -> ev.r = BoolByte(n(ev.a) >= n(ev.b))
           \* equal masks hash equally, different ones feed different bytes
           [] ev.op = "shash" -> (ev.r = ev.s) <=> (n(ev.a) = n(ev.b))
SMaskOps == {"snew", "sdefault", "stest", "scmp", "spcmp", "seq", "sne", "slt", "sle", "sgt", "sge", "shash"}

------------------------------------------------------------------------------
(* C06  mask reductions, bitmask, select                                      *)
Sum2(a, b, c) == (IF a THEN 1 ELSE 0) + (IF b THEN 2 ELSE 0) + (IF c THEN 4 ELSE 0)
AllOf(T, a)  == \A i \in 1..T.n : Lane(a, T.w, i) = Ones(T.w)
AnyOf(T, a)  == \E i \in 1..T.n : Lane(a, T.w, i) = Ones(T.w)
MaskRed(ev, T) == ev.p = 0 /\ ev.r = <<Sum2(AllOf(T, ev.a), AnyOf(T, ev.a), ~AnyOf(T, ev.a))>>
\* a range of masks given as lane-bit numbers k, k+1, ...: the same, in bulk
MaskRedRange(ev, T) ==
  /\ ev.p = 0
  /\ LET full == (2^T.n) - 1 IN
     \A j \in 1..Len(ev.r) :
        LET m == ev.k + j - 1 IN ev.r[j] = Sum2(m = full, m # 0, m = 0)
BitMask(ev, T) ==
  /\ ev.p = 0 /\ 8*Len(ev.r) >= T.n
  /\ \A k \in 0..(8*Len(ev.r) - 1) :
       Bit(ev.r, k) = IF k < T.n /\ TopBit(Lane(ev.a, T.w, k+1)) THEN 1 ELSE 0
\* the receiver's type is the mask type T, the operands' is U
Select(ev, T, U) ==
  /\ OkV(ev, U)
  /\ \A i \in 1..T.n :
       R(ev, U, i) = IF Lane(ev.a, T.w, i) = Ones(T.w) THEN Lane(ev.b, U.w, i) ELSE Lane(ev.c, U.w, i)

\* lanes as booleans, and the splat of one
MaskExtract(ev, T) == Ok(ev, T.n) /\ \A i \in 1..T.n : ev.r[i] = IF Lane(ev.a, T.w, i) = Ones(T.w) THEN 1 ELSE 0
MaskSplat(ev, T) == OkV(ev, T) /\ \A i \in 1..T.n : R(ev, T, i) = MaskLane(ev.a[1] = 1, T.w)

------------------------------------------------------------------------------
(* C07 / C08  horizontal reductions                                           *)
RECURSIVE FoldLanes(_, _, _, _, _)
FoldLanes(F(_, _), T, a, i, acc) ==
  IF i > T.n THEN acc ELSE FoldLanes(F, T, a, i+1, F(acc, Lane(a, T.w, i)))
IRed(op, T, a) ==
  LET first == Lane(a, T.w, 1)
      mn(x, y) == MinOf(Signed(T), x, y)
      mx(x, y) == MaxOf(Signed(T), x, y)
  IN
  CASE op = "wsum"  -> FoldLanes(WAdd, T, a, 2, first)
    [] op = "wprod" -> FoldLanes(WMul, T, a, 2, first)
    [] op = "rand"  -> FoldLanes(BAnd, T, a, 2, first)
    [] op = "ror"   -> FoldLanes(BOr, T, a, 2, first)
    [] op = "rxor"  -> FoldLanes(BXor, T, a, 2, first)
    [] op = "rmin"  -> FoldLanes(mn, T, a, 2, first)
    [] op = "rmax"  -> FoldLanes(mx, T, a, 2, first)
IRedOps == {"wsum", "wprod", "rand", "ror", "rxor", "rmin", "rmax"}
IReduce(ev, T) == ev.p = 0 /\ ev.r = IRed(ev.op, T, ev.a)
CountTrue(T, a) == FoldLeft(LAMBDA n, i : n + (IF Lane(a, T.w, i) = Ones(T.w) THEN 1 ELSE 0), 0, Idx(T.n))
MReduce(ev, T) ==
  /\ ev.p = 0
  /\ CASE ev.op = "rand" -> ev.r = BoolByte(AllOf(T, ev.a))
       [] ev.op = "ror"  -> ev.r = BoolByte(AnyOf(T, ev.a))
       [] ev.op = "rxor" -> ev.r = BoolByte(CountTrue(T, ev.a) % 2 = 1)
\* iterators: ev.a is the concatenation of ev.k vectors, folded from the identity
RECURSIVE IterFold(_, _, _, _, _)
IterFold(F(_, _), a, w, n, acc) ==     \* one lane position, stride n*w
  IF a = <<>> THEN acc ELSE IterFold(F, SubSeq(a, n*w + 1, Len(a)), w, n, F(acc, SubSeq(a, 1, w)))
IIter(ev, T) ==
  /\ OkV(ev, T)
  /\ \A i \in 1..T.n :
       LET tail == SubSeq(ev.a, (i-1)*T.w + 1, Len(ev.a)) IN
       R(ev, T, i) = IF ev.op = "isum" THEN IterFold(WAdd, tail, T.w, T.n, Zeros(T.w))
                     ELSE IterFold(WMul, tail, T.w, T.n, OneL(T.w))
FOne(n) == Enc(n, 0, Bias(n), <<>>)
FIter(ev, T) ==
  /\ OkV(ev, T)
  /\ \A i \in 1..T.n :
       LET tail == SubSeq(ev.a, (i-1)*T.w + 1, Len(ev.a)) IN
       FSame(R(ev, T, i), IF ev.op = "isum" THEN IterFold(FAdd, tail, T.w, T.n, FZero(T.w, 0))
                          ELSE IterFold(FMul, tail, T.w, T.n, FOne(T.w)))
\* documented tree association over lanes lo..hi (a power of two of them)
RECURSIVE FTree(_, _, _, _, _)
FTree(F(_, _), T, a, lo, hi) ==
  IF lo = hi THEN Lane(a, T.w, lo)
  ELSE LET mid == (lo + hi - 1) \div 2 IN F(FTree(F, T, a, lo, mid), FTree(F, T, a, mid + 1, hi))
AnyNaN(T, a) == \E i \in 1..T.n : IsNaN(Lane(a, T.w, i))
AllNaN(T, a) == \A i \in 1..T.n : IsNaN(Lane(a, T.w, i))
FRedOps == {"fsum", "fprod", "rmin", "rmax"}
FReduce(ev, T) ==
  /\ Ok(ev, T.w)
  /\ CASE ev.op = "fsum" ->
            IF AnyNaN(T, ev.a) THEN IsNaN(ev.r)
            ELSE \/ FSame(ev.r, FoldLanes(FAdd, T, ev.a, 1, FZero(T.w, 0)))
                 \/ FSame(ev.r, FoldLanes(FAdd, T, ev.a, 2, Lane(ev.a, T.w, 1)))
                 \/ FSame(ev.r, FTree(FAdd, T, ev.a, 1, T.n))
       [] ev.op = "fprod" ->
            IF AnyNaN(T, ev.a) THEN IsNaN(ev.r)
            ELSE \/ FSame(ev.r, FoldLanes(FMul, T, ev.a, 1, FOne(T.w)))
                 \/ FSame(ev.r, FTree(FMul, T, ev.a, 1, T.n))
       [] OTHER ->
            IF AllNaN(T, ev.a) THEN IsNaN(ev.r)
            ELSE \* a lane, not NaN, and no lane beats it
                 /\ \E i \in 1..T.n : ev.r = Lane(ev.a, T.w, i)
                 /\ ~IsNaN(ev.r)
                 /\ \A i \in 1..T.n :
                      LET x == Lane(ev.a, T.w, i) IN
                      ~IsNaN(x) => (IF ev.op = "rmin" THEN FLe(ev.r, x) ELSE FLe(x, ev.r))

------------------------------------------------------------------------------
(* C12  shuffles                                                              *)
\* ev.x: the indices (0-based) into the lanes of a followed by those of b;
\* the output type U has as many lanes as there are indices
Shuffle(ev, T, U) ==
  /\ OkV(ev, U) /\ Len(ev.x) = U.n /\ U.w = T.w /\ U.k = T.k
  \* the macro evaluates each vector argument once, in order
  /\ ev.seen = IF ev.two = 1 THEN <<1, 2>> ELSE <<1>>
  /\ LET ab == ev.a \o ev.b IN
     \A j \in 1..U.n : R(ev, U, j) = Lane(ab, T.w, ev.x[j] + 1)
\* dynamic indices: ev.b holds index lanes as wide as the value lanes
IndexOf(l) == l[1]
ShuffleDyn(ev, T) ==
  /\ OkV(ev, T)
  /\ \A j \in 1..T.n :
       LET k == Lane(ev.b, T.w, j) IN
       /\ \A i \in 2..T.w : k[i] = 0
       /\ k[1] < T.n
       /\ R(ev, T, j) = Lane(ev.a, T.w, k[1] + 1)

------------------------------------------------------------------------------
(* C13  conversions                                                           *)
CastDefined(T, U, a) == ~(T.k = "f" /\ U.k \in {"i", "u"}) \/ FitsInt(a, U.k = "i", U.w)
CastLane(T, U, a, r) ==
  CASE U.k = "m" -> r = MaskLane(IF T.k = "f" THEN IsNaN(a) \/ ~IsFZero(a) ELSE ~IsZero(a), U.w)
    [] T.k \in {"i", "m"} /\ U.k \in {"i", "u"} -> r = SExt(a, U.w)
    [] T.k = "u" /\ U.k \in {"i", "u"} -> r = Ext(a, U.w)
    [] T.k \in {"i", "m"} /\ U.k = "f" -> r = IntToFloat(TRUE, a, U.w)
    [] T.k = "u" /\ U.k = "f" -> r = IntToFloat(FALSE, a, U.w)
    [] T.k = "f" /\ U.k = "f" -> FSame(r, FloatToFloat(a, U.w))
    [] T.k = "f" /\ U.k \in {"i", "u"} -> CastDefined(T, U, a) /\ r = FloatToInt(a, U.w)
Cast(ev, T, U) ==
  /\ OkV(ev, U) /\ T.n = U.n
  /\ \A i \in 1..T.n : CastLane(T, U, Lane(ev.a, T.w, i), R(ev, U, i))
(* From: same value.  Integers extend, integers fit the float's precision,    *)
(* floats widen, masks stay masks.                                            *)
Lossless(ev, T, U) ==
  /\ Cast(ev, T, U)
  /\ \A i \in 1..T.n :
       LET a == Lane(ev.a, T.w, i)  r == R(ev, U, i) IN
       CASE T.k \in {"i", "u"} /\ U.k \in {"i", "u"} -> Neg(Signed(T), a) = Neg(Signed(U), r) /\ Ext(Mag(Signed(U), r), T.w) = Mag(Signed(T), a)
         [] T.k \in {"i", "u"} /\ U.k = "f" -> Norm(TruncMag(r)) = Norm(Mag(Signed(T), a)) /\ FSign(r) = (IF Neg(Signed(T), a) THEN 1 ELSE 0)
         [] OTHER -> TRUE

------------------------------------------------------------------------------
(* C14  representation                                                        *)
Reinterpret(ev) == ev.p = 0 /\ ev.r = ev.a
SwapBytes(ev) == ev.p = 0 /\ ev.r = Reverse(ev.a)
SwapOps == {"swap_bytes", "to_be", "from_be"}
SameOps == {"bits", "to_le", "from_le", "same", "image"}
LayoutOK(ev, T) == ev.size = Size(T) /\ ev.lanes = T.n /\ ev.vl = T.n

------------------------------------------------------------------------------
(* C15  bit counting                                                          *)
CountOps == {"count_ones", "count_zeros", "leading_zeros", "trailing_zeros"}
CountOf(op, a) ==
  CASE op = "count_ones" -> CountOnes(a)
    [] op = "count_zeros" -> CountZeros(a)
    [] op = "leading_zeros" -> LeadingZeros(a)
    [] op = "trailing_zeros" -> TrailingZeros(a)
BitCount(ev, T) ==
  /\ OkV(ev, T)
  /\ \A i \in 1..T.n : R(ev, T, i) = FromInt(CountOf(ev.op, Lane(ev.a, T.w, i)), T.w)

------------------------------------------------------------------------------
(* C17  pointer vectors: ev.z is the size of the pointee                      *)
\* addr + count*size, addr - count*size modulo 2^64; truncating distance
PtrOps == {"p_offset", "p_add", "p_sub", "p_offset_from"}
PtrLane(op, a, b, z) ==
  CASE op \in {"p_offset", "p_add"} -> WAdd(a, WMul(b, FromInt(z, 8)))
    [] op = "p_sub" -> WSub(a, WMul(b, FromInt(z, 8)))
    [] op = "p_offset_from" -> WDiv(TRUE, WSub(a, b), FromInt(z, 8))
PtrArith(ev, T) ==
  /\ OkV(ev, T)
  /\ \A i \in 1..T.n : R(ev, T, i) = PtrLane(ev.op, Lane(ev.a, T.w, i), Lane(ev.b, T.w, i), ev.z)

------------------------------------------------------------------------------
(* Which outcome of a pure call is allowed.                                   *)
PureOK(ev) ==
  IF ev.op \in SMaskOps THEN SMask(ev)
  ELSE IF ev.op \in SameOps THEN Reinterpret(ev)
  ELSE
  LET T == TypeOf(ev)
      op == ev.op
  IN
  CASE op \in ArithOps /\ IsInt(T) -> IntArith(ev, T)
    [] op \in ArithOps \cup FloatUn /\ T.k = "f" -> FloatArith(ev, T)
    [] op \in {"mul_add", "mul_adde"} -> MulAdd(ev, T)
    [] op \in Est -> Estimate(ev, T)
    [] op \in BitOps /\ IsInt(T) -> Bitwise1(ev, T)
    [] op \in BitOps /\ T.k = "m" -> MaskBitwise(ev, T)
    [] op \in ShiftOps -> Shift(ev, T)
    [] op \in RotOps -> Rotate(ev, T)
    [] op \in CmpOps -> VCompare(ev, T)
    [] op \in ClassOps -> Classify(ev, T)
    [] op \in WholeOps -> Whole(ev, T)
    [] op = "hash" -> HashOK(ev, T)
    [] op = "mred" -> MaskRed(ev, T)
    [] op = "mredr" -> MaskRedRange(ev, T)
    [] op = "mext" -> MaskExtract(ev, T)
    [] op = "msplat" -> MaskSplat(ev, T)
    [] op = "bitmask" -> BitMask(ev, T)
    [] op = "select" -> Select(ev, T, UTypeOf(ev))
    [] op \in IRedOps /\ IsInt(T) -> IReduce(ev, T)
    [] op \in {"rand", "ror", "rxor"} /\ T.k = "m" -> MReduce(ev, T)
    [] op \in {"isum", "iprod"} /\ IsInt(T) -> IIter(ev, T)
    [] op \in {"isum", "iprod"} /\ T.k = "f" -> FIter(ev, T)
    [] op \in FRedOps /\ T.k = "f" -> FReduce(ev, T)
    [] op = "shuffle" -> Shuffle(ev, T, UTypeOf(ev))
    [] op = "shuffle1_dyn" -> ShuffleDyn(ev, T)
    [] op = "cast" -> Cast(ev, T, UTypeOf(ev))
    [] op = "from" -> Lossless(ev, T, UTypeOf(ev))
    [] op \in SwapOps -> SwapBytes(ev)
    [] op = "fconst" -> OkV(ev, T) /\ \A i \in 1..T.n : FSame(R(ev, T, i), ev.a)
    [] op = "layout" -> LayoutOK(ev, T)
    [] op \in CountOps -> BitCount(ev, T)
    [] op \in PtrOps -> PtrArith(ev, T)
=============================================================================
