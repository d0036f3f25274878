// generated by tools/mklists.py
fn list_select() {
sel!{m128x1, i128x1, 16, I, 16, 1}
sel!{m128x1, u128x1, 16, U, 16, 1}
sel!{m128x1, m128x1, 16, M, 16, 1}
sel!{m8x2, i8x2, 1, I, 1, 2}
sel!{m8x2, i16x2, 1, I, 2, 2}
sel!{m8x2, i32x2, 1, I, 4, 2}
sel!{m8x2, i64x2, 1, I, 8, 2}
sel!{m8x2, i128x2, 1, I, 16, 2}
sel!{m8x2, isizex2, 1, I, 8, 2}
sel!{m8x2, u8x2, 1, U, 1, 2}
sel!{m8x2, u16x2, 1, U, 2, 2}
sel!{m8x2, u32x2, 1, U, 4, 2}
sel!{m8x2, u64x2, 1, U, 8, 2}
sel!{m8x2, u128x2, 1, U, 16, 2}
sel!{m8x2, usizex2, 1, U, 8, 2}
sel!{m8x2, f32x2, 1, F, 4, 2}
sel!{m8x2, f64x2, 1, F, 8, 2}
sel!{m8x2, m8x2, 1, M, 1, 2}
sel!{m8x2, m16x2, 1, M, 2, 2}
sel!{m8x2, m32x2, 1, M, 4, 2}
sel!{m8x2, m64x2, 1, M, 8, 2}
sel!{m8x2, m128x2, 1, M, 16, 2}
sel!{m8x2, msizex2, 1, M, 8, 2}
sel!{m16x2, i8x2, 2, I, 1, 2}
sel!{m16x2, i16x2, 2, I, 2, 2}
sel!{m16x2, i32x2, 2, I, 4, 2}
sel!{m16x2, i64x2, 2, I, 8, 2}
sel!{m16x2, i128x2, 2, I, 16, 2}
sel!{m16x2, isizex2, 2, I, 8, 2}
sel!{m16x2, u8x2, 2, U, 1, 2}
sel!{m16x2, u16x2, 2, U, 2, 2}
sel!{m16x2, u32x2, 2, U, 4, 2}
sel!{m16x2, u64x2, 2, U, 8, 2}
sel!{m16x2, u128x2, 2, U, 16, 2}
sel!{m16x2, usizex2, 2, U, 8, 2}
sel!{m16x2, f32x2, 2, F, 4, 2}
sel!{m16x2, f64x2, 2, F, 8, 2}
sel!{m16x2, m8x2, 2, M, 1, 2}
sel!{m16x2, m16x2, 2, M, 2, 2}
sel!{m16x2, m32x2, 2, M, 4, 2}
sel!{m16x2, m64x2, 2, M, 8, 2}
sel!{m16x2, m128x2, 2, M, 16, 2}
sel!{m16x2, msizex2, 2, M, 8, 2}
sel!{m32x2, i8x2, 4, I, 1, 2}
sel!{m32x2, i16x2, 4, I, 2, 2}
sel!{m32x2, i32x2, 4, I, 4, 2}
sel!{m32x2, i64x2, 4, I, 8, 2}
sel!{m32x2, i128x2, 4, I, 16, 2}
sel!{m32x2, isizex2, 4, I, 8, 2}
sel!{m32x2, u8x2, 4, U, 1, 2}
sel!{m32x2, u16x2, 4, U, 2, 2}
sel!{m32x2, u32x2, 4, U, 4, 2}
sel!{m32x2, u64x2, 4, U, 8, 2}
sel!{m32x2, u128x2, 4, U, 16, 2}
sel!{m32x2, usizex2, 4, U, 8, 2}
sel!{m32x2, f32x2, 4, F, 4, 2}
sel!{m32x2, f64x2, 4, F, 8, 2}
sel!{m32x2, m8x2, 4, M, 1, 2}
sel!{m32x2, m16x2, 4, M, 2, 2}
sel!{m32x2, m32x2, 4, M, 4, 2}
sel!{m32x2, m64x2, 4, M, 8, 2}
sel!{m32x2, m128x2, 4, M, 16, 2}
sel!{m32x2, msizex2, 4, M, 8, 2}
sel!{m64x2, i8x2, 8, I, 1, 2}
sel!{m64x2, i16x2, 8, I, 2, 2}
sel!{m64x2, i32x2, 8, I, 4, 2}
sel!{m64x2, i64x2, 8, I, 8, 2}
sel!{m64x2, i128x2, 8, I, 16, 2}
sel!{m64x2, isizex2, 8, I, 8, 2}
sel!{m64x2, u8x2, 8, U, 1, 2}
sel!{m64x2, u16x2, 8, U, 2, 2}
sel!{m64x2, u32x2, 8, U, 4, 2}
sel!{m64x2, u64x2, 8, U, 8, 2}
sel!{m64x2, u128x2, 8, U, 16, 2}
sel!{m64x2, usizex2, 8, U, 8, 2}
sel!{m64x2, f32x2, 8, F, 4, 2}
sel!{m64x2, f64x2, 8, F, 8, 2}
sel!{m64x2, m8x2, 8, M, 1, 2}
sel!{m64x2, m16x2, 8, M, 2, 2}
sel!{m64x2, m32x2, 8, M, 4, 2}
sel!{m64x2, m64x2, 8, M, 8, 2}
sel!{m64x2, m128x2, 8, M, 16, 2}
sel!{m64x2, msizex2, 8, M, 8, 2}
sel!{m128x2, i8x2, 16, I, 1, 2}
sel!{m128x2, i16x2, 16, I, 2, 2}
sel!{m128x2, i32x2, 16, I, 4, 2}
sel!{m128x2, i64x2, 16, I, 8, 2}
sel!{m128x2, i128x2, 16, I, 16, 2}
sel!{m128x2, isizex2, 16, I, 8, 2}
sel!{m128x2, u8x2, 16, U, 1, 2}
sel!{m128x2, u16x2, 16, U, 2, 2}
sel!{m128x2, u32x2, 16, U, 4, 2}
sel!{m128x2, u64x2, 16, U, 8, 2}
sel!{m128x2, u128x2, 16, U, 16, 2}
sel!{m128x2, usizex2, 16, U, 8, 2}
sel!{m128x2, f32x2, 16, F, 4, 2}
sel!{m128x2, f64x2, 16, F, 8, 2}
sel!{m128x2, m8x2, 16, M, 1, 2}
sel!{m128x2, m16x2, 16, M, 2, 2}
sel!{m128x2, m32x2, 16, M, 4, 2}
sel!{m128x2, m64x2, 16, M, 8, 2}
sel!{m128x2, m128x2, 16, M, 16, 2}
sel!{m128x2, msizex2, 16, M, 8, 2}
sel!{msizex2, i8x2, 8, I, 1, 2}
sel!{msizex2, i16x2, 8, I, 2, 2}
sel!{msizex2, i32x2, 8, I, 4, 2}
sel!{msizex2, i64x2, 8, I, 8, 2}
sel!{msizex2, i128x2, 8, I, 16, 2}
sel!{msizex2, isizex2, 8, I, 8, 2}
sel!{msizex2, u8x2, 8, U, 1, 2}
sel!{msizex2, u16x2, 8, U, 2, 2}
sel!{msizex2, u32x2, 8, U, 4, 2}
sel!{msizex2, u64x2, 8, U, 8, 2}
sel!{msizex2, u128x2, 8, U, 16, 2}
sel!{msizex2, usizex2, 8, U, 8, 2}
sel!{msizex2, f32x2, 8, F, 4, 2}
sel!{msizex2, f64x2, 8, F, 8, 2}
sel!{msizex2, m8x2, 8, M, 1, 2}
sel!{msizex2, m16x2, 8, M, 2, 2}
sel!{msizex2, m32x2, 8, M, 4, 2}
sel!{msizex2, m64x2, 8, M, 8, 2}
sel!{msizex2, m128x2, 8, M, 16, 2}
sel!{msizex2, msizex2, 8, M, 8, 2}
sel!{m8x4, i8x4, 1, I, 1, 4}
sel!{m8x4, i16x4, 1, I, 2, 4}
sel!{m8x4, i32x4, 1, I, 4, 4}
sel!{m8x4, i64x4, 1, I, 8, 4}
sel!{m8x4, i128x4, 1, I, 16, 4}
sel!{m8x4, isizex4, 1, I, 8, 4}
sel!{m8x4, u8x4, 1, U, 1, 4}
sel!{m8x4, u16x4, 1, U, 2, 4}
sel!{m8x4, u32x4, 1, U, 4, 4}
sel!{m8x4, u64x4, 1, U, 8, 4}
sel!{m8x4, u128x4, 1, U, 16, 4}
sel!{m8x4, usizex4, 1, U, 8, 4}
sel!{m8x4, f32x4, 1, F, 4, 4}
sel!{m8x4, f64x4, 1, F, 8, 4}
sel!{m8x4, m8x4, 1, M, 1, 4}
sel!{m8x4, m16x4, 1, M, 2, 4}
sel!{m8x4, m32x4, 1, M, 4, 4}
sel!{m8x4, m64x4, 1, M, 8, 4}
sel!{m8x4, m128x4, 1, M, 16, 4}
sel!{m8x4, msizex4, 1, M, 8, 4}
sel!{m16x4, i8x4, 2, I, 1, 4}
sel!{m16x4, i16x4, 2, I, 2, 4}
sel!{m16x4, i32x4, 2, I, 4, 4}
sel!{m16x4, i64x4, 2, I, 8, 4}
sel!{m16x4, i128x4, 2, I, 16, 4}
sel!{m16x4, isizex4, 2, I, 8, 4}
sel!{m16x4, u8x4, 2, U, 1, 4}
sel!{m16x4, u16x4, 2, U, 2, 4}
sel!{m16x4, u32x4, 2, U, 4, 4}
sel!{m16x4, u64x4, 2, U, 8, 4}
sel!{m16x4, u128x4, 2, U, 16, 4}
sel!{m16x4, usizex4, 2, U, 8, 4}
sel!{m16x4, f32x4, 2, F, 4, 4}
sel!{m16x4, f64x4, 2, F, 8, 4}
sel!{m16x4, m8x4, 2, M, 1, 4}
sel!{m16x4, m16x4, 2, M, 2, 4}
sel!{m16x4, m32x4, 2, M, 4, 4}
sel!{m16x4, m64x4, 2, M, 8, 4}
sel!{m16x4, m128x4, 2, M, 16, 4}
sel!{m16x4, msizex4, 2, M, 8, 4}
sel!{m32x4, i8x4, 4, I, 1, 4}
sel!{m32x4, i16x4, 4, I, 2, 4}
sel!{m32x4, i32x4, 4, I, 4, 4}
sel!{m32x4, i64x4, 4, I, 8, 4}
sel!{m32x4, i128x4, 4, I, 16, 4}
sel!{m32x4, isizex4, 4, I, 8, 4}
sel!{m32x4, u8x4, 4, U, 1, 4}
sel!{m32x4, u16x4, 4, U, 2, 4}
sel!{m32x4, u32x4, 4, U, 4, 4}
sel!{m32x4, u64x4, 4, U, 8, 4}
sel!{m32x4, u128x4, 4, U, 16, 4}
sel!{m32x4, usizex4, 4, U, 8, 4}
sel!{m32x4, f32x4, 4, F, 4, 4}
sel!{m32x4, f64x4, 4, F, 8, 4}
sel!{m32x4, m8x4, 4, M, 1, 4}
sel!{m32x4, m16x4, 4, M, 2, 4}
sel!{m32x4, m32x4, 4, M, 4, 4}
sel!{m32x4, m64x4, 4, M, 8, 4}
sel!{m32x4, m128x4, 4, M, 16, 4}
sel!{m32x4, msizex4, 4, M, 8, 4}
sel!{m64x4, i8x4, 8, I, 1, 4}
sel!{m64x4, i16x4, 8, I, 2, 4}
sel!{m64x4, i32x4, 8, I, 4, 4}
sel!{m64x4, i64x4, 8, I, 8, 4}
sel!{m64x4, i128x4, 8, I, 16, 4}
sel!{m64x4, isizex4, 8, I, 8, 4}
sel!{m64x4, u8x4, 8, U, 1, 4}
sel!{m64x4, u16x4, 8, U, 2, 4}
sel!{m64x4, u32x4, 8, U, 4, 4}
sel!{m64x4, u64x4, 8, U, 8, 4}
sel!{m64x4, u128x4, 8, U, 16, 4}
sel!{m64x4, usizex4, 8, U, 8, 4}
sel!{m64x4, f32x4, 8, F, 4, 4}
sel!{m64x4, f64x4, 8, F, 8, 4}
sel!{m64x4, m8x4, 8, M, 1, 4}
sel!{m64x4, m16x4, 8, M, 2, 4}
sel!{m64x4, m32x4, 8, M, 4, 4}
sel!{m64x4, m64x4, 8, M, 8, 4}
sel!{m64x4, m128x4, 8, M, 16, 4}
sel!{m64x4, msizex4, 8, M, 8, 4}
sel!{m128x4, i8x4, 16, I, 1, 4}
sel!{m128x4, i16x4, 16, I, 2, 4}
sel!{m128x4, i32x4, 16, I, 4, 4}
sel!{m128x4, i64x4, 16, I, 8, 4}
sel!{m128x4, i128x4, 16, I, 16, 4}
sel!{m128x4, isizex4, 16, I, 8, 4}
sel!{m128x4, u8x4, 16, U, 1, 4}
sel!{m128x4, u16x4, 16, U, 2, 4}
sel!{m128x4, u32x4, 16, U, 4, 4}
sel!{m128x4, u64x4, 16, U, 8, 4}
sel!{m128x4, u128x4, 16, U, 16, 4}
sel!{m128x4, usizex4, 16, U, 8, 4}
sel!{m128x4, f32x4, 16, F, 4, 4}
sel!{m128x4, f64x4, 16, F, 8, 4}
sel!{m128x4, m8x4, 16, M, 1, 4}
sel!{m128x4, m16x4, 16, M, 2, 4}
sel!{m128x4, m32x4, 16, M, 4, 4}
sel!{m128x4, m64x4, 16, M, 8, 4}
sel!{m128x4, m128x4, 16, M, 16, 4}
sel!{m128x4, msizex4, 16, M, 8, 4}
sel!{msizex4, i8x4, 8, I, 1, 4}
sel!{msizex4, i16x4, 8, I, 2, 4}
sel!{msizex4, i32x4, 8, I, 4, 4}
sel!{msizex4, i64x4, 8, I, 8, 4}
sel!{msizex4, i128x4, 8, I, 16, 4}
sel!{msizex4, isizex4, 8, I, 8, 4}
sel!{msizex4, u8x4, 8, U, 1, 4}
sel!{msizex4, u16x4, 8, U, 2, 4}
sel!{msizex4, u32x4, 8, U, 4, 4}
sel!{msizex4, u64x4, 8, U, 8, 4}
sel!{msizex4, u128x4, 8, U, 16, 4}
sel!{msizex4, usizex4, 8, U, 8, 4}
sel!{msizex4, f32x4, 8, F, 4, 4}
sel!{msizex4, f64x4, 8, F, 8, 4}
sel!{msizex4, m8x4, 8, M, 1, 4}
sel!{msizex4, m16x4, 8, M, 2, 4}
sel!{msizex4, m32x4, 8, M, 4, 4}
sel!{msizex4, m64x4, 8, M, 8, 4}
sel!{msizex4, m128x4, 8, M, 16, 4}
sel!{msizex4, msizex4, 8, M, 8, 4}
sel!{m8x8, i8x8, 1, I, 1, 8}
sel!{m8x8, i16x8, 1, I, 2, 8}
sel!{m8x8, i32x8, 1, I, 4, 8}
sel!{m8x8, i64x8, 1, I, 8, 8}
sel!{m8x8, isizex8, 1, I, 8, 8}
sel!{m8x8, u8x8, 1, U, 1, 8}
sel!{m8x8, u16x8, 1, U, 2, 8}
sel!{m8x8, u32x8, 1, U, 4, 8}
sel!{m8x8, u64x8, 1, U, 8, 8}
sel!{m8x8, usizex8, 1, U, 8, 8}
sel!{m8x8, f32x8, 1, F, 4, 8}
sel!{m8x8, f64x8, 1, F, 8, 8}
sel!{m8x8, m8x8, 1, M, 1, 8}
sel!{m8x8, m16x8, 1, M, 2, 8}
sel!{m8x8, m32x8, 1, M, 4, 8}
sel!{m8x8, m64x8, 1, M, 8, 8}
sel!{m8x8, msizex8, 1, M, 8, 8}
sel!{m16x8, i8x8, 2, I, 1, 8}
sel!{m16x8, i16x8, 2, I, 2, 8}
sel!{m16x8, i32x8, 2, I, 4, 8}
sel!{m16x8, i64x8, 2, I, 8, 8}
sel!{m16x8, isizex8, 2, I, 8, 8}
sel!{m16x8, u8x8, 2, U, 1, 8}
sel!{m16x8, u16x8, 2, U, 2, 8}
sel!{m16x8, u32x8, 2, U, 4, 8}
sel!{m16x8, u64x8, 2, U, 8, 8}
sel!{m16x8, usizex8, 2, U, 8, 8}
sel!{m16x8, f32x8, 2, F, 4, 8}
sel!{m16x8, f64x8, 2, F, 8, 8}
sel!{m16x8, m8x8, 2, M, 1, 8}
sel!{m16x8, m16x8, 2, M, 2, 8}
sel!{m16x8, m32x8, 2, M, 4, 8}
sel!{m16x8, m64x8, 2, M, 8, 8}
sel!{m16x8, msizex8, 2, M, 8, 8}
sel!{m32x8, i8x8, 4, I, 1, 8}
sel!{m32x8, i16x8, 4, I, 2, 8}
sel!{m32x8, i32x8, 4, I, 4, 8}
sel!{m32x8, i64x8, 4, I, 8, 8}
sel!{m32x8, isizex8, 4, I, 8, 8}
sel!{m32x8, u8x8, 4, U, 1, 8}
sel!{m32x8, u16x8, 4, U, 2, 8}
sel!{m32x8, u32x8, 4, U, 4, 8}
sel!{m32x8, u64x8, 4, U, 8, 8}
sel!{m32x8, usizex8, 4, U, 8, 8}
sel!{m32x8, f32x8, 4, F, 4, 8}
sel!{m32x8, f64x8, 4, F, 8, 8}
sel!{m32x8, m8x8, 4, M, 1, 8}
sel!{m32x8, m16x8, 4, M, 2, 8}
sel!{m32x8, m32x8, 4, M, 4, 8}
sel!{m32x8, m64x8, 4, M, 8, 8}
sel!{m32x8, msizex8, 4, M, 8, 8}
sel!{m64x8, i8x8, 8, I, 1, 8}
sel!{m64x8, i16x8, 8, I, 2, 8}
sel!{m64x8, i32x8, 8, I, 4, 8}
sel!{m64x8, i64x8, 8, I, 8, 8}
sel!{m64x8, isizex8, 8, I, 8, 8}
sel!{m64x8, u8x8, 8, U, 1, 8}
sel!{m64x8, u16x8, 8, U, 2, 8}
sel!{m64x8, u32x8, 8, U, 4, 8}
sel!{m64x8, u64x8, 8, U, 8, 8}
sel!{m64x8, usizex8, 8, U, 8, 8}
sel!{m64x8, f32x8, 8, F, 4, 8}
sel!{m64x8, f64x8, 8, F, 8, 8}
sel!{m64x8, m8x8, 8, M, 1, 8}
sel!{m64x8, m16x8, 8, M, 2, 8}
sel!{m64x8, m32x8, 8, M, 4, 8}
sel!{m64x8, m64x8, 8, M, 8, 8}
sel!{m64x8, msizex8, 8, M, 8, 8}
sel!{msizex8, i8x8, 8, I, 1, 8}
sel!{msizex8, i16x8, 8, I, 2, 8}
sel!{msizex8, i32x8, 8, I, 4, 8}
sel!{msizex8, i64x8, 8, I, 8, 8}
sel!{msizex8, isizex8, 8, I, 8, 8}
sel!{msizex8, u8x8, 8, U, 1, 8}
sel!{msizex8, u16x8, 8, U, 2, 8}
sel!{msizex8, u32x8, 8, U, 4, 8}
sel!{msizex8, u64x8, 8, U, 8, 8}
sel!{msizex8, usizex8, 8, U, 8, 8}
sel!{msizex8, f32x8, 8, F, 4, 8}
sel!{msizex8, f64x8, 8, F, 8, 8}
sel!{msizex8, m8x8, 8, M, 1, 8}
sel!{msizex8, m16x8, 8, M, 2, 8}
sel!{msizex8, m32x8, 8, M, 4, 8}
sel!{msizex8, m64x8, 8, M, 8, 8}
sel!{msizex8, msizex8, 8, M, 8, 8}
sel!{m8x16, i8x16, 1, I, 1, 16}
sel!{m8x16, i16x16, 1, I, 2, 16}
sel!{m8x16, i32x16, 1, I, 4, 16}
sel!{m8x16, u8x16, 1, U, 1, 16}
sel!{m8x16, u16x16, 1, U, 2, 16}
sel!{m8x16, u32x16, 1, U, 4, 16}
sel!{m8x16, f32x16, 1, F, 4, 16}
sel!{m8x16, m8x16, 1, M, 1, 16}
sel!{m8x16, m16x16, 1, M, 2, 16}
sel!{m8x16, m32x16, 1, M, 4, 16}
sel!{m16x16, i8x16, 2, I, 1, 16}
sel!{m16x16, i16x16, 2, I, 2, 16}
sel!{m16x16, i32x16, 2, I, 4, 16}
sel!{m16x16, u8x16, 2, U, 1, 16}
sel!{m16x16, u16x16, 2, U, 2, 16}
sel!{m16x16, u32x16, 2, U, 4, 16}
sel!{m16x16, f32x16, 2, F, 4, 16}
sel!{m16x16, m8x16, 2, M, 1, 16}
sel!{m16x16, m16x16, 2, M, 2, 16}
sel!{m16x16, m32x16, 2, M, 4, 16}
sel!{m32x16, i8x16, 4, I, 1, 16}
sel!{m32x16, i16x16, 4, I, 2, 16}
sel!{m32x16, i32x16, 4, I, 4, 16}
sel!{m32x16, u8x16, 4, U, 1, 16}
sel!{m32x16, u16x16, 4, U, 2, 16}
sel!{m32x16, u32x16, 4, U, 4, 16}
sel!{m32x16, f32x16, 4, F, 4, 16}
sel!{m32x16, m8x16, 4, M, 1, 16}
sel!{m32x16, m16x16, 4, M, 2, 16}
sel!{m32x16, m32x16, 4, M, 4, 16}
sel!{m8x32, i8x32, 1, I, 1, 32}
sel!{m8x32, i16x32, 1, I, 2, 32}
sel!{m8x32, u8x32, 1, U, 1, 32}
sel!{m8x32, u16x32, 1, U, 2, 32}
sel!{m8x32, m8x32, 1, M, 1, 32}
sel!{m8x32, m16x32, 1, M, 2, 32}
sel!{m16x32, i8x32, 2, I, 1, 32}
sel!{m16x32, i16x32, 2, I, 2, 32}
sel!{m16x32, u8x32, 2, U, 1, 32}
sel!{m16x32, u16x32, 2, U, 2, 32}
sel!{m16x32, m8x32, 2, M, 1, 32}
sel!{m16x32, m16x32, 2, M, 2, 32}
sel!{m8x64, i8x64, 1, I, 1, 64}
sel!{m8x64, u8x64, 1, U, 1, 64}
sel!{m8x64, m8x64, 1, M, 1, 64}
}
