------------------------------ MODULE SimdTypes ------------------------------
(* The vector types of the crate: kind (i/u integer, f float, m mask, p       *)
(* pointer), bytes per lane, number of lanes.  On this 64-bit target          *)
(* pointer-sized lanes have 8 bytes.                                          *)
EXTENDS FloatLane

V(k, w, n) == [k |-> k, w |-> w, n |-> n]
Types == [
  i8x2 |-> V("i", 1, 2), i8x4 |-> V("i", 1, 4), i8x8 |-> V("i", 1, 8),
  i8x16 |-> V("i", 1, 16), i8x32 |-> V("i", 1, 32), i8x64 |-> V("i", 1, 64),
  i16x2 |-> V("i", 2, 2), i16x4 |-> V("i", 2, 4), i16x8 |-> V("i", 2, 8),
  i16x16 |-> V("i", 2, 16), i16x32 |-> V("i", 2, 32), i32x2 |-> V("i", 4, 2),
  i32x4 |-> V("i", 4, 4), i32x8 |-> V("i", 4, 8), i32x16 |-> V("i", 4, 16),
  i64x2 |-> V("i", 8, 2), i64x4 |-> V("i", 8, 4), i64x8 |-> V("i", 8, 8),
  i128x1 |-> V("i", 16, 1), i128x2 |-> V("i", 16, 2), i128x4 |-> V("i", 16, 4),
  isizex2 |-> V("i", 8, 2), isizex4 |-> V("i", 8, 4), isizex8 |-> V("i", 8, 8),
  u8x2 |-> V("u", 1, 2), u8x4 |-> V("u", 1, 4), u8x8 |-> V("u", 1, 8),
  u8x16 |-> V("u", 1, 16), u8x32 |-> V("u", 1, 32), u8x64 |-> V("u", 1, 64),
  u16x2 |-> V("u", 2, 2), u16x4 |-> V("u", 2, 4), u16x8 |-> V("u", 2, 8),
  u16x16 |-> V("u", 2, 16), u16x32 |-> V("u", 2, 32), u32x2 |-> V("u", 4, 2),
  u32x4 |-> V("u", 4, 4), u32x8 |-> V("u", 4, 8), u32x16 |-> V("u", 4, 16),
  u64x2 |-> V("u", 8, 2), u64x4 |-> V("u", 8, 4), u64x8 |-> V("u", 8, 8),
  u128x1 |-> V("u", 16, 1), u128x2 |-> V("u", 16, 2), u128x4 |-> V("u", 16, 4),
  usizex2 |-> V("u", 8, 2), usizex4 |-> V("u", 8, 4), usizex8 |-> V("u", 8, 8),
  f32x2 |-> V("f", 4, 2), f32x4 |-> V("f", 4, 4), f32x8 |-> V("f", 4, 8),
  f32x16 |-> V("f", 4, 16), f64x2 |-> V("f", 8, 2), f64x4 |-> V("f", 8, 4),
  f64x8 |-> V("f", 8, 8), m8x2 |-> V("m", 1, 2), m8x4 |-> V("m", 1, 4),
  m8x8 |-> V("m", 1, 8), m8x16 |-> V("m", 1, 16), m8x32 |-> V("m", 1, 32),
  m8x64 |-> V("m", 1, 64), m16x2 |-> V("m", 2, 2), m16x4 |-> V("m", 2, 4),
  m16x8 |-> V("m", 2, 8), m16x16 |-> V("m", 2, 16), m16x32 |-> V("m", 2, 32),
  m32x2 |-> V("m", 4, 2), m32x4 |-> V("m", 4, 4), m32x8 |-> V("m", 4, 8),
  m32x16 |-> V("m", 4, 16), m64x2 |-> V("m", 8, 2), m64x4 |-> V("m", 8, 4),
  m64x8 |-> V("m", 8, 8), m128x1 |-> V("m", 16, 1), m128x2 |-> V("m", 16, 2),
  m128x4 |-> V("m", 16, 4), msizex2 |-> V("m", 8, 2), msizex4 |-> V("m", 8, 4),
  msizex8 |-> V("m", 8, 8), cptrx2 |-> V("p", 8, 2), mptrx2 |-> V("p", 8, 2),
  cptrx4 |-> V("p", 8, 4), mptrx4 |-> V("p", 8, 4), cptrx8 |-> V("p", 8, 8),
  mptrx8 |-> V("p", 8, 8) ]

Size(T)  == T.w * T.n
Signed(T) == T.k = "i"
Lane(v, w, i) == SubSeq(v, (i-1)*w + 1, i*w)
\* canonical mask lanes
Tru(w) == Ones(w)
Fls(w) == Zeros(w)
MaskLane(b, w) == IF b THEN Ones(w) ELSE Zeros(w)
Canonical(l) == l = Ones(Len(l)) \/ l = Zeros(Len(l))
\* concatenate n lanes given by a function of the lane number
Lanes(n, w, F(_)) == LET fs == [i \in 1..n |-> F(i)] IN [k \in 1..(n*w) |-> fs[((k-1) \div w) + 1][((k-1) % w) + 1]]
=============================================================================
