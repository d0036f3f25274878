// generated by tools/mklists.py
fn list_cast() {
cast!{f32x16, i16x16, F, 4, 16, I, 2}
cast!{f32x16, i32x16, F, 4, 16, I, 4}
cast!{f32x16, i8x16, F, 4, 16, I, 1}
cast!{f32x16, m16x16, F, 4, 16, M, 2}
cast!{f32x16, m32x16, F, 4, 16, M, 4}
cast!{f32x16, m8x16, F, 4, 16, M, 1}
cast!{f32x16, u16x16, F, 4, 16, U, 2}
cast!{f32x16, u32x16, F, 4, 16, U, 4}
cast!{f32x16, u8x16, F, 4, 16, U, 1}
cast!{f32x2, f64x2, F, 4, 2, F, 8}
cast!{f32x2, i128x2, F, 4, 2, I, 16}
cast!{f32x2, i16x2, F, 4, 2, I, 2}
cast!{f32x2, i32x2, F, 4, 2, I, 4}
cast!{f32x2, i64x2, F, 4, 2, I, 8}
cast!{f32x2, i8x2, F, 4, 2, I, 1}
cast!{f32x2, isizex2, F, 4, 2, I, 8}
cast!{f32x2, m128x2, F, 4, 2, M, 16}
cast!{f32x2, m16x2, F, 4, 2, M, 2}
cast!{f32x2, m32x2, F, 4, 2, M, 4}
cast!{f32x2, m64x2, F, 4, 2, M, 8}
cast!{f32x2, m8x2, F, 4, 2, M, 1}
cast!{f32x2, msizex2, F, 4, 2, M, 8}
cast!{f32x2, u128x2, F, 4, 2, U, 16}
cast!{f32x2, u16x2, F, 4, 2, U, 2}
cast!{f32x2, u32x2, F, 4, 2, U, 4}
cast!{f32x2, u64x2, F, 4, 2, U, 8}
cast!{f32x2, u8x2, F, 4, 2, U, 1}
cast!{f32x2, usizex2, F, 4, 2, U, 8}
cast!{f32x4, f64x4, F, 4, 4, F, 8}
cast!{f32x4, i128x4, F, 4, 4, I, 16}
cast!{f32x4, i16x4, F, 4, 4, I, 2}
cast!{f32x4, i32x4, F, 4, 4, I, 4}
cast!{f32x4, i64x4, F, 4, 4, I, 8}
cast!{f32x4, i8x4, F, 4, 4, I, 1}
cast!{f32x4, isizex4, F, 4, 4, I, 8}
cast!{f32x4, m128x4, F, 4, 4, M, 16}
cast!{f32x4, m16x4, F, 4, 4, M, 2}
cast!{f32x4, m32x4, F, 4, 4, M, 4}
cast!{f32x4, m64x4, F, 4, 4, M, 8}
cast!{f32x4, m8x4, F, 4, 4, M, 1}
cast!{f32x4, msizex4, F, 4, 4, M, 8}
cast!{f32x4, u128x4, F, 4, 4, U, 16}
cast!{f32x4, u16x4, F, 4, 4, U, 2}
cast!{f32x4, u32x4, F, 4, 4, U, 4}
cast!{f32x4, u64x4, F, 4, 4, U, 8}
cast!{f32x4, u8x4, F, 4, 4, U, 1}
cast!{f32x4, usizex4, F, 4, 4, U, 8}
cast!{f32x8, f64x8, F, 4, 8, F, 8}
cast!{f32x8, i16x8, F, 4, 8, I, 2}
cast!{f32x8, i32x8, F, 4, 8, I, 4}
cast!{f32x8, i64x8, F, 4, 8, I, 8}
cast!{f32x8, i8x8, F, 4, 8, I, 1}
cast!{f32x8, isizex8, F, 4, 8, I, 8}
cast!{f32x8, m16x8, F, 4, 8, M, 2}
cast!{f32x8, m32x8, F, 4, 8, M, 4}
cast!{f32x8, m64x8, F, 4, 8, M, 8}
cast!{f32x8, m8x8, F, 4, 8, M, 1}
cast!{f32x8, msizex8, F, 4, 8, M, 8}
cast!{f32x8, u16x8, F, 4, 8, U, 2}
cast!{f32x8, u32x8, F, 4, 8, U, 4}
cast!{f32x8, u64x8, F, 4, 8, U, 8}
cast!{f32x8, u8x8, F, 4, 8, U, 1}
cast!{f32x8, usizex8, F, 4, 8, U, 8}
cast!{f64x2, f32x2, F, 8, 2, F, 4}
cast!{f64x2, i128x2, F, 8, 2, I, 16}
cast!{f64x2, i16x2, F, 8, 2, I, 2}
cast!{f64x2, i32x2, F, 8, 2, I, 4}
cast!{f64x2, i64x2, F, 8, 2, I, 8}
cast!{f64x2, i8x2, F, 8, 2, I, 1}
cast!{f64x2, isizex2, F, 8, 2, I, 8}
cast!{f64x2, m128x2, F, 8, 2, M, 16}
cast!{f64x2, m16x2, F, 8, 2, M, 2}
cast!{f64x2, m32x2, F, 8, 2, M, 4}
cast!{f64x2, m64x2, F, 8, 2, M, 8}
cast!{f64x2, m8x2, F, 8, 2, M, 1}
cast!{f64x2, msizex2, F, 8, 2, M, 8}
cast!{f64x2, u128x2, F, 8, 2, U, 16}
cast!{f64x2, u16x2, F, 8, 2, U, 2}
cast!{f64x2, u32x2, F, 8, 2, U, 4}
cast!{f64x2, u64x2, F, 8, 2, U, 8}
cast!{f64x2, u8x2, F, 8, 2, U, 1}
cast!{f64x2, usizex2, F, 8, 2, U, 8}
cast!{f64x4, f32x4, F, 8, 4, F, 4}
cast!{f64x4, i128x4, F, 8, 4, I, 16}
cast!{f64x4, i16x4, F, 8, 4, I, 2}
cast!{f64x4, i32x4, F, 8, 4, I, 4}
cast!{f64x4, i64x4, F, 8, 4, I, 8}
cast!{f64x4, i8x4, F, 8, 4, I, 1}
cast!{f64x4, isizex4, F, 8, 4, I, 8}
cast!{f64x4, m128x4, F, 8, 4, M, 16}
cast!{f64x4, m16x4, F, 8, 4, M, 2}
cast!{f64x4, m32x4, F, 8, 4, M, 4}
cast!{f64x4, m64x4, F, 8, 4, M, 8}
cast!{f64x4, m8x4, F, 8, 4, M, 1}
cast!{f64x4, msizex4, F, 8, 4, M, 8}
cast!{f64x4, u128x4, F, 8, 4, U, 16}
cast!{f64x4, u16x4, F, 8, 4, U, 2}
cast!{f64x4, u32x4, F, 8, 4, U, 4}
cast!{f64x4, u64x4, F, 8, 4, U, 8}
cast!{f64x4, u8x4, F, 8, 4, U, 1}
cast!{f64x4, usizex4, F, 8, 4, U, 8}
cast!{f64x8, f32x8, F, 8, 8, F, 4}
cast!{f64x8, i16x8, F, 8, 8, I, 2}
cast!{f64x8, i32x8, F, 8, 8, I, 4}
cast!{f64x8, i64x8, F, 8, 8, I, 8}
cast!{f64x8, i8x8, F, 8, 8, I, 1}
cast!{f64x8, isizex8, F, 8, 8, I, 8}
cast!{f64x8, m16x8, F, 8, 8, M, 2}
cast!{f64x8, m32x8, F, 8, 8, M, 4}
cast!{f64x8, m64x8, F, 8, 8, M, 8}
cast!{f64x8, m8x8, F, 8, 8, M, 1}
cast!{f64x8, msizex8, F, 8, 8, M, 8}
cast!{f64x8, u16x8, F, 8, 8, U, 2}
cast!{f64x8, u32x8, F, 8, 8, U, 4}
cast!{f64x8, u64x8, F, 8, 8, U, 8}
cast!{f64x8, u8x8, F, 8, 8, U, 1}
cast!{f64x8, usizex8, F, 8, 8, U, 8}
cast!{i128x1, m128x1, I, 16, 1, M, 16}
cast!{i128x1, u128x1, I, 16, 1, U, 16}
cast!{i128x2, f32x2, I, 16, 2, F, 4}
cast!{i128x2, f64x2, I, 16, 2, F, 8}
cast!{i128x2, i16x2, I, 16, 2, I, 2}
cast!{i128x2, i32x2, I, 16, 2, I, 4}
cast!{i128x2, i64x2, I, 16, 2, I, 8}
cast!{i128x2, i8x2, I, 16, 2, I, 1}
cast!{i128x2, isizex2, I, 16, 2, I, 8}
cast!{i128x2, m128x2, I, 16, 2, M, 16}
cast!{i128x2, m16x2, I, 16, 2, M, 2}
cast!{i128x2, m32x2, I, 16, 2, M, 4}
cast!{i128x2, m64x2, I, 16, 2, M, 8}
cast!{i128x2, m8x2, I, 16, 2, M, 1}
cast!{i128x2, msizex2, I, 16, 2, M, 8}
cast!{i128x2, u128x2, I, 16, 2, U, 16}
cast!{i128x2, u16x2, I, 16, 2, U, 2}
cast!{i128x2, u32x2, I, 16, 2, U, 4}
cast!{i128x2, u64x2, I, 16, 2, U, 8}
cast!{i128x2, u8x2, I, 16, 2, U, 1}
cast!{i128x2, usizex2, I, 16, 2, U, 8}
cast!{i128x4, f32x4, I, 16, 4, F, 4}
cast!{i128x4, f64x4, I, 16, 4, F, 8}
cast!{i128x4, i16x4, I, 16, 4, I, 2}
cast!{i128x4, i32x4, I, 16, 4, I, 4}
cast!{i128x4, i64x4, I, 16, 4, I, 8}
cast!{i128x4, i8x4, I, 16, 4, I, 1}
cast!{i128x4, isizex4, I, 16, 4, I, 8}
cast!{i128x4, m128x4, I, 16, 4, M, 16}
cast!{i128x4, m16x4, I, 16, 4, M, 2}
cast!{i128x4, m32x4, I, 16, 4, M, 4}
cast!{i128x4, m64x4, I, 16, 4, M, 8}
cast!{i128x4, m8x4, I, 16, 4, M, 1}
cast!{i128x4, msizex4, I, 16, 4, M, 8}
cast!{i128x4, u128x4, I, 16, 4, U, 16}
cast!{i128x4, u16x4, I, 16, 4, U, 2}
cast!{i128x4, u32x4, I, 16, 4, U, 4}
cast!{i128x4, u64x4, I, 16, 4, U, 8}
cast!{i128x4, u8x4, I, 16, 4, U, 1}
cast!{i128x4, usizex4, I, 16, 4, U, 8}
cast!{i16x16, f32x16, I, 2, 16, F, 4}
cast!{i16x16, i32x16, I, 2, 16, I, 4}
cast!{i16x16, i8x16, I, 2, 16, I, 1}
cast!{i16x16, m16x16, I, 2, 16, M, 2}
cast!{i16x16, m32x16, I, 2, 16, M, 4}
cast!{i16x16, m8x16, I, 2, 16, M, 1}
cast!{i16x16, u16x16, I, 2, 16, U, 2}
cast!{i16x16, u32x16, I, 2, 16, U, 4}
cast!{i16x16, u8x16, I, 2, 16, U, 1}
cast!{i16x2, f32x2, I, 2, 2, F, 4}
cast!{i16x2, f64x2, I, 2, 2, F, 8}
cast!{i16x2, i128x2, I, 2, 2, I, 16}
cast!{i16x2, i32x2, I, 2, 2, I, 4}
cast!{i16x2, i64x2, I, 2, 2, I, 8}
cast!{i16x2, i8x2, I, 2, 2, I, 1}
cast!{i16x2, isizex2, I, 2, 2, I, 8}
cast!{i16x2, m128x2, I, 2, 2, M, 16}
cast!{i16x2, m16x2, I, 2, 2, M, 2}
cast!{i16x2, m32x2, I, 2, 2, M, 4}
cast!{i16x2, m64x2, I, 2, 2, M, 8}
cast!{i16x2, m8x2, I, 2, 2, M, 1}
cast!{i16x2, msizex2, I, 2, 2, M, 8}
cast!{i16x2, u128x2, I, 2, 2, U, 16}
cast!{i16x2, u16x2, I, 2, 2, U, 2}
cast!{i16x2, u32x2, I, 2, 2, U, 4}
cast!{i16x2, u64x2, I, 2, 2, U, 8}
cast!{i16x2, u8x2, I, 2, 2, U, 1}
cast!{i16x2, usizex2, I, 2, 2, U, 8}
cast!{i16x32, i8x32, I, 2, 32, I, 1}
cast!{i16x32, m16x32, I, 2, 32, M, 2}
cast!{i16x32, m8x32, I, 2, 32, M, 1}
cast!{i16x32, u16x32, I, 2, 32, U, 2}
cast!{i16x32, u8x32, I, 2, 32, U, 1}
cast!{i16x4, f32x4, I, 2, 4, F, 4}
cast!{i16x4, f64x4, I, 2, 4, F, 8}
cast!{i16x4, i128x4, I, 2, 4, I, 16}
cast!{i16x4, i32x4, I, 2, 4, I, 4}
cast!{i16x4, i64x4, I, 2, 4, I, 8}
cast!{i16x4, i8x4, I, 2, 4, I, 1}
cast!{i16x4, isizex4, I, 2, 4, I, 8}
cast!{i16x4, m128x4, I, 2, 4, M, 16}
cast!{i16x4, m16x4, I, 2, 4, M, 2}
cast!{i16x4, m32x4, I, 2, 4, M, 4}
cast!{i16x4, m64x4, I, 2, 4, M, 8}
cast!{i16x4, m8x4, I, 2, 4, M, 1}
cast!{i16x4, msizex4, I, 2, 4, M, 8}
cast!{i16x4, u128x4, I, 2, 4, U, 16}
cast!{i16x4, u16x4, I, 2, 4, U, 2}
cast!{i16x4, u32x4, I, 2, 4, U, 4}
cast!{i16x4, u64x4, I, 2, 4, U, 8}
cast!{i16x4, u8x4, I, 2, 4, U, 1}
cast!{i16x4, usizex4, I, 2, 4, U, 8}
cast!{i16x8, f32x8, I, 2, 8, F, 4}
cast!{i16x8, f64x8, I, 2, 8, F, 8}
cast!{i16x8, i32x8, I, 2, 8, I, 4}
cast!{i16x8, i64x8, I, 2, 8, I, 8}
cast!{i16x8, i8x8, I, 2, 8, I, 1}
cast!{i16x8, isizex8, I, 2, 8, I, 8}
cast!{i16x8, m16x8, I, 2, 8, M, 2}
cast!{i16x8, m32x8, I, 2, 8, M, 4}
cast!{i16x8, m64x8, I, 2, 8, M, 8}
cast!{i16x8, m8x8, I, 2, 8, M, 1}
cast!{i16x8, msizex8, I, 2, 8, M, 8}
cast!{i16x8, u16x8, I, 2, 8, U, 2}
cast!{i16x8, u32x8, I, 2, 8, U, 4}
cast!{i16x8, u64x8, I, 2, 8, U, 8}
cast!{i16x8, u8x8, I, 2, 8, U, 1}
cast!{i16x8, usizex8, I, 2, 8, U, 8}
cast!{i32x16, f32x16, I, 4, 16, F, 4}
cast!{i32x16, i16x16, I, 4, 16, I, 2}
cast!{i32x16, i8x16, I, 4, 16, I, 1}
cast!{i32x16, m16x16, I, 4, 16, M, 2}
cast!{i32x16, m32x16, I, 4, 16, M, 4}
cast!{i32x16, m8x16, I, 4, 16, M, 1}
cast!{i32x16, u16x16, I, 4, 16, U, 2}
cast!{i32x16, u32x16, I, 4, 16, U, 4}
cast!{i32x16, u8x16, I, 4, 16, U, 1}
cast!{i32x2, f32x2, I, 4, 2, F, 4}
cast!{i32x2, f64x2, I, 4, 2, F, 8}
cast!{i32x2, i128x2, I, 4, 2, I, 16}
cast!{i32x2, i16x2, I, 4, 2, I, 2}
cast!{i32x2, i64x2, I, 4, 2, I, 8}
cast!{i32x2, i8x2, I, 4, 2, I, 1}
cast!{i32x2, isizex2, I, 4, 2, I, 8}
cast!{i32x2, m128x2, I, 4, 2, M, 16}
cast!{i32x2, m16x2, I, 4, 2, M, 2}
cast!{i32x2, m32x2, I, 4, 2, M, 4}
cast!{i32x2, m64x2, I, 4, 2, M, 8}
cast!{i32x2, m8x2, I, 4, 2, M, 1}
cast!{i32x2, msizex2, I, 4, 2, M, 8}
cast!{i32x2, u128x2, I, 4, 2, U, 16}
cast!{i32x2, u16x2, I, 4, 2, U, 2}
cast!{i32x2, u32x2, I, 4, 2, U, 4}
cast!{i32x2, u64x2, I, 4, 2, U, 8}
cast!{i32x2, u8x2, I, 4, 2, U, 1}
cast!{i32x2, usizex2, I, 4, 2, U, 8}
cast!{i32x4, f32x4, I, 4, 4, F, 4}
cast!{i32x4, f64x4, I, 4, 4, F, 8}
cast!{i32x4, i128x4, I, 4, 4, I, 16}
cast!{i32x4, i16x4, I, 4, 4, I, 2}
cast!{i32x4, i64x4, I, 4, 4, I, 8}
cast!{i32x4, i8x4, I, 4, 4, I, 1}
cast!{i32x4, isizex4, I, 4, 4, I, 8}
cast!{i32x4, m128x4, I, 4, 4, M, 16}
cast!{i32x4, m16x4, I, 4, 4, M, 2}
cast!{i32x4, m32x4, I, 4, 4, M, 4}
cast!{i32x4, m64x4, I, 4, 4, M, 8}
cast!{i32x4, m8x4, I, 4, 4, M, 1}
cast!{i32x4, msizex4, I, 4, 4, M, 8}
cast!{i32x4, u128x4, I, 4, 4, U, 16}
cast!{i32x4, u16x4, I, 4, 4, U, 2}
cast!{i32x4, u32x4, I, 4, 4, U, 4}
cast!{i32x4, u64x4, I, 4, 4, U, 8}
cast!{i32x4, u8x4, I, 4, 4, U, 1}
cast!{i32x4, usizex4, I, 4, 4, U, 8}
cast!{i32x8, f32x8, I, 4, 8, F, 4}
cast!{i32x8, f64x8, I, 4, 8, F, 8}
cast!{i32x8, i16x8, I, 4, 8, I, 2}
cast!{i32x8, i64x8, I, 4, 8, I, 8}
cast!{i32x8, i8x8, I, 4, 8, I, 1}
cast!{i32x8, isizex8, I, 4, 8, I, 8}
cast!{i32x8, m16x8, I, 4, 8, M, 2}
cast!{i32x8, m32x8, I, 4, 8, M, 4}
cast!{i32x8, m64x8, I, 4, 8, M, 8}
cast!{i32x8, m8x8, I, 4, 8, M, 1}
cast!{i32x8, msizex8, I, 4, 8, M, 8}
cast!{i32x8, u16x8, I, 4, 8, U, 2}
cast!{i32x8, u32x8, I, 4, 8, U, 4}
cast!{i32x8, u64x8, I, 4, 8, U, 8}
cast!{i32x8, u8x8, I, 4, 8, U, 1}
cast!{i32x8, usizex8, I, 4, 8, U, 8}
cast!{i64x2, f32x2, I, 8, 2, F, 4}
cast!{i64x2, f64x2, I, 8, 2, F, 8}
cast!{i64x2, i128x2, I, 8, 2, I, 16}
cast!{i64x2, i16x2, I, 8, 2, I, 2}
cast!{i64x2, i32x2, I, 8, 2, I, 4}
cast!{i64x2, i8x2, I, 8, 2, I, 1}
cast!{i64x2, isizex2, I, 8, 2, I, 8}
cast!{i64x2, m128x2, I, 8, 2, M, 16}
cast!{i64x2, m16x2, I, 8, 2, M, 2}
cast!{i64x2, m32x2, I, 8, 2, M, 4}
cast!{i64x2, m64x2, I, 8, 2, M, 8}
cast!{i64x2, m8x2, I, 8, 2, M, 1}
cast!{i64x2, msizex2, I, 8, 2, M, 8}
cast!{i64x2, u128x2, I, 8, 2, U, 16}
cast!{i64x2, u16x2, I, 8, 2, U, 2}
cast!{i64x2, u32x2, I, 8, 2, U, 4}
cast!{i64x2, u64x2, I, 8, 2, U, 8}
cast!{i64x2, u8x2, I, 8, 2, U, 1}
cast!{i64x2, usizex2, I, 8, 2, U, 8}
cast!{i64x4, f32x4, I, 8, 4, F, 4}
cast!{i64x4, f64x4, I, 8, 4, F, 8}
cast!{i64x4, i128x4, I, 8, 4, I, 16}
cast!{i64x4, i16x4, I, 8, 4, I, 2}
cast!{i64x4, i32x4, I, 8, 4, I, 4}
cast!{i64x4, i8x4, I, 8, 4, I, 1}
cast!{i64x4, isizex4, I, 8, 4, I, 8}
cast!{i64x4, m128x4, I, 8, 4, M, 16}
cast!{i64x4, m16x4, I, 8, 4, M, 2}
cast!{i64x4, m32x4, I, 8, 4, M, 4}
cast!{i64x4, m64x4, I, 8, 4, M, 8}
cast!{i64x4, m8x4, I, 8, 4, M, 1}
cast!{i64x4, msizex4, I, 8, 4, M, 8}
cast!{i64x4, u128x4, I, 8, 4, U, 16}
cast!{i64x4, u16x4, I, 8, 4, U, 2}
cast!{i64x4, u32x4, I, 8, 4, U, 4}
cast!{i64x4, u64x4, I, 8, 4, U, 8}
cast!{i64x4, u8x4, I, 8, 4, U, 1}
cast!{i64x4, usizex4, I, 8, 4, U, 8}
cast!{i64x8, f32x8, I, 8, 8, F, 4}
cast!{i64x8, f64x8, I, 8, 8, F, 8}
cast!{i64x8, i16x8, I, 8, 8, I, 2}
cast!{i64x8, i32x8, I, 8, 8, I, 4}
cast!{i64x8, i8x8, I, 8, 8, I, 1}
cast!{i64x8, isizex8, I, 8, 8, I, 8}
cast!{i64x8, m16x8, I, 8, 8, M, 2}
cast!{i64x8, m32x8, I, 8, 8, M, 4}
cast!{i64x8, m64x8, I, 8, 8, M, 8}
cast!{i64x8, m8x8, I, 8, 8, M, 1}
cast!{i64x8, msizex8, I, 8, 8, M, 8}
cast!{i64x8, u16x8, I, 8, 8, U, 2}
cast!{i64x8, u32x8, I, 8, 8, U, 4}
cast!{i64x8, u64x8, I, 8, 8, U, 8}
cast!{i64x8, u8x8, I, 8, 8, U, 1}
cast!{i64x8, usizex8, I, 8, 8, U, 8}
cast!{i8x16, f32x16, I, 1, 16, F, 4}
cast!{i8x16, i16x16, I, 1, 16, I, 2}
cast!{i8x16, i32x16, I, 1, 16, I, 4}
cast!{i8x16, m16x16, I, 1, 16, M, 2}
cast!{i8x16, m32x16, I, 1, 16, M, 4}
cast!{i8x16, m8x16, I, 1, 16, M, 1}
cast!{i8x16, u16x16, I, 1, 16, U, 2}
cast!{i8x16, u32x16, I, 1, 16, U, 4}
cast!{i8x16, u8x16, I, 1, 16, U, 1}
cast!{i8x2, f32x2, I, 1, 2, F, 4}
cast!{i8x2, f64x2, I, 1, 2, F, 8}
cast!{i8x2, i128x2, I, 1, 2, I, 16}
cast!{i8x2, i16x2, I, 1, 2, I, 2}
cast!{i8x2, i32x2, I, 1, 2, I, 4}
cast!{i8x2, i64x2, I, 1, 2, I, 8}
cast!{i8x2, isizex2, I, 1, 2, I, 8}
cast!{i8x2, m128x2, I, 1, 2, M, 16}
cast!{i8x2, m16x2, I, 1, 2, M, 2}
cast!{i8x2, m32x2, I, 1, 2, M, 4}
cast!{i8x2, m64x2, I, 1, 2, M, 8}
cast!{i8x2, m8x2, I, 1, 2, M, 1}
cast!{i8x2, msizex2, I, 1, 2, M, 8}
cast!{i8x2, u128x2, I, 1, 2, U, 16}
cast!{i8x2, u16x2, I, 1, 2, U, 2}
cast!{i8x2, u32x2, I, 1, 2, U, 4}
cast!{i8x2, u64x2, I, 1, 2, U, 8}
cast!{i8x2, u8x2, I, 1, 2, U, 1}
cast!{i8x2, usizex2, I, 1, 2, U, 8}
cast!{i8x32, i16x32, I, 1, 32, I, 2}
cast!{i8x32, m16x32, I, 1, 32, M, 2}
cast!{i8x32, m8x32, I, 1, 32, M, 1}
cast!{i8x32, u16x32, I, 1, 32, U, 2}
cast!{i8x32, u8x32, I, 1, 32, U, 1}
cast!{i8x4, f32x4, I, 1, 4, F, 4}
cast!{i8x4, f64x4, I, 1, 4, F, 8}
cast!{i8x4, i128x4, I, 1, 4, I, 16}
cast!{i8x4, i16x4, I, 1, 4, I, 2}
cast!{i8x4, i32x4, I, 1, 4, I, 4}
cast!{i8x4, i64x4, I, 1, 4, I, 8}
cast!{i8x4, isizex4, I, 1, 4, I, 8}
cast!{i8x4, m128x4, I, 1, 4, M, 16}
cast!{i8x4, m16x4, I, 1, 4, M, 2}
cast!{i8x4, m32x4, I, 1, 4, M, 4}
cast!{i8x4, m64x4, I, 1, 4, M, 8}
cast!{i8x4, m8x4, I, 1, 4, M, 1}
cast!{i8x4, msizex4, I, 1, 4, M, 8}
cast!{i8x4, u128x4, I, 1, 4, U, 16}
cast!{i8x4, u16x4, I, 1, 4, U, 2}
cast!{i8x4, u32x4, I, 1, 4, U, 4}
cast!{i8x4, u64x4, I, 1, 4, U, 8}
cast!{i8x4, u8x4, I, 1, 4, U, 1}
cast!{i8x4, usizex4, I, 1, 4, U, 8}
cast!{i8x64, m8x64, I, 1, 64, M, 1}
cast!{i8x64, u8x64, I, 1, 64, U, 1}
cast!{i8x8, f32x8, I, 1, 8, F, 4}
cast!{i8x8, f64x8, I, 1, 8, F, 8}
cast!{i8x8, i16x8, I, 1, 8, I, 2}
cast!{i8x8, i32x8, I, 1, 8, I, 4}
cast!{i8x8, i64x8, I, 1, 8, I, 8}
cast!{i8x8, isizex8, I, 1, 8, I, 8}
cast!{i8x8, m16x8, I, 1, 8, M, 2}
cast!{i8x8, m32x8, I, 1, 8, M, 4}
cast!{i8x8, m64x8, I, 1, 8, M, 8}
cast!{i8x8, m8x8, I, 1, 8, M, 1}
cast!{i8x8, msizex8, I, 1, 8, M, 8}
cast!{i8x8, u16x8, I, 1, 8, U, 2}
cast!{i8x8, u32x8, I, 1, 8, U, 4}
cast!{i8x8, u64x8, I, 1, 8, U, 8}
cast!{i8x8, u8x8, I, 1, 8, U, 1}
cast!{i8x8, usizex8, I, 1, 8, U, 8}
cast!{isizex2, f32x2, I, 8, 2, F, 4}
cast!{isizex2, f64x2, I, 8, 2, F, 8}
cast!{isizex2, i128x2, I, 8, 2, I, 16}
cast!{isizex2, i16x2, I, 8, 2, I, 2}
cast!{isizex2, i32x2, I, 8, 2, I, 4}
cast!{isizex2, i64x2, I, 8, 2, I, 8}
cast!{isizex2, i8x2, I, 8, 2, I, 1}
cast!{isizex2, m128x2, I, 8, 2, M, 16}
cast!{isizex2, m16x2, I, 8, 2, M, 2}
cast!{isizex2, m32x2, I, 8, 2, M, 4}
cast!{isizex2, m64x2, I, 8, 2, M, 8}
cast!{isizex2, m8x2, I, 8, 2, M, 1}
cast!{isizex2, msizex2, I, 8, 2, M, 8}
cast!{isizex2, u128x2, I, 8, 2, U, 16}
cast!{isizex2, u16x2, I, 8, 2, U, 2}
cast!{isizex2, u32x2, I, 8, 2, U, 4}
cast!{isizex2, u64x2, I, 8, 2, U, 8}
cast!{isizex2, u8x2, I, 8, 2, U, 1}
cast!{isizex2, usizex2, I, 8, 2, U, 8}
cast!{isizex4, f32x4, I, 8, 4, F, 4}
cast!{isizex4, f64x4, I, 8, 4, F, 8}
cast!{isizex4, i128x4, I, 8, 4, I, 16}
cast!{isizex4, i16x4, I, 8, 4, I, 2}
cast!{isizex4, i32x4, I, 8, 4, I, 4}
cast!{isizex4, i64x4, I, 8, 4, I, 8}
cast!{isizex4, i8x4, I, 8, 4, I, 1}
cast!{isizex4, m128x4, I, 8, 4, M, 16}
cast!{isizex4, m16x4, I, 8, 4, M, 2}
cast!{isizex4, m32x4, I, 8, 4, M, 4}
cast!{isizex4, m64x4, I, 8, 4, M, 8}
cast!{isizex4, m8x4, I, 8, 4, M, 1}
cast!{isizex4, msizex4, I, 8, 4, M, 8}
cast!{isizex4, u128x4, I, 8, 4, U, 16}
cast!{isizex4, u16x4, I, 8, 4, U, 2}
cast!{isizex4, u32x4, I, 8, 4, U, 4}
cast!{isizex4, u64x4, I, 8, 4, U, 8}
cast!{isizex4, u8x4, I, 8, 4, U, 1}
cast!{isizex4, usizex4, I, 8, 4, U, 8}
cast!{isizex8, f32x8, I, 8, 8, F, 4}
cast!{isizex8, f64x8, I, 8, 8, F, 8}
cast!{isizex8, i16x8, I, 8, 8, I, 2}
cast!{isizex8, i32x8, I, 8, 8, I, 4}
cast!{isizex8, i64x8, I, 8, 8, I, 8}
cast!{isizex8, i8x8, I, 8, 8, I, 1}
cast!{isizex8, m16x8, I, 8, 8, M, 2}
cast!{isizex8, m32x8, I, 8, 8, M, 4}
cast!{isizex8, m64x8, I, 8, 8, M, 8}
cast!{isizex8, m8x8, I, 8, 8, M, 1}
cast!{isizex8, msizex8, I, 8, 8, M, 8}
cast!{isizex8, u16x8, I, 8, 8, U, 2}
cast!{isizex8, u32x8, I, 8, 8, U, 4}
cast!{isizex8, u64x8, I, 8, 8, U, 8}
cast!{isizex8, u8x8, I, 8, 8, U, 1}
cast!{isizex8, usizex8, I, 8, 8, U, 8}
cast!{m128x1, i128x1, M, 16, 1, I, 16}
cast!{m128x1, u128x1, M, 16, 1, U, 16}
cast!{m128x2, f32x2, M, 16, 2, F, 4}
cast!{m128x2, f64x2, M, 16, 2, F, 8}
cast!{m128x2, i128x2, M, 16, 2, I, 16}
cast!{m128x2, i16x2, M, 16, 2, I, 2}
cast!{m128x2, i32x2, M, 16, 2, I, 4}
cast!{m128x2, i64x2, M, 16, 2, I, 8}
cast!{m128x2, i8x2, M, 16, 2, I, 1}
cast!{m128x2, isizex2, M, 16, 2, I, 8}
cast!{m128x2, m16x2, M, 16, 2, M, 2}
cast!{m128x2, m32x2, M, 16, 2, M, 4}
cast!{m128x2, m64x2, M, 16, 2, M, 8}
cast!{m128x2, m8x2, M, 16, 2, M, 1}
cast!{m128x2, msizex2, M, 16, 2, M, 8}
cast!{m128x2, u128x2, M, 16, 2, U, 16}
cast!{m128x2, u16x2, M, 16, 2, U, 2}
cast!{m128x2, u32x2, M, 16, 2, U, 4}
cast!{m128x2, u64x2, M, 16, 2, U, 8}
cast!{m128x2, u8x2, M, 16, 2, U, 1}
cast!{m128x2, usizex2, M, 16, 2, U, 8}
cast!{m128x4, f32x4, M, 16, 4, F, 4}
cast!{m128x4, f64x4, M, 16, 4, F, 8}
cast!{m128x4, i128x4, M, 16, 4, I, 16}
cast!{m128x4, i16x4, M, 16, 4, I, 2}
cast!{m128x4, i32x4, M, 16, 4, I, 4}
cast!{m128x4, i64x4, M, 16, 4, I, 8}
cast!{m128x4, i8x4, M, 16, 4, I, 1}
cast!{m128x4, isizex4, M, 16, 4, I, 8}
cast!{m128x4, m16x4, M, 16, 4, M, 2}
cast!{m128x4, m32x4, M, 16, 4, M, 4}
cast!{m128x4, m64x4, M, 16, 4, M, 8}
cast!{m128x4, m8x4, M, 16, 4, M, 1}
cast!{m128x4, msizex4, M, 16, 4, M, 8}
cast!{m128x4, u128x4, M, 16, 4, U, 16}
cast!{m128x4, u16x4, M, 16, 4, U, 2}
cast!{m128x4, u32x4, M, 16, 4, U, 4}
cast!{m128x4, u64x4, M, 16, 4, U, 8}
cast!{m128x4, u8x4, M, 16, 4, U, 1}
cast!{m128x4, usizex4, M, 16, 4, U, 8}
cast!{m16x16, f32x16, M, 2, 16, F, 4}
cast!{m16x16, i16x16, M, 2, 16, I, 2}
cast!{m16x16, i32x16, M, 2, 16, I, 4}
cast!{m16x16, i8x16, M, 2, 16, I, 1}
cast!{m16x16, m32x16, M, 2, 16, M, 4}
cast!{m16x16, m8x16, M, 2, 16, M, 1}
cast!{m16x16, u16x16, M, 2, 16, U, 2}
cast!{m16x16, u32x16, M, 2, 16, U, 4}
cast!{m16x16, u8x16, M, 2, 16, U, 1}
cast!{m16x2, f32x2, M, 2, 2, F, 4}
cast!{m16x2, f64x2, M, 2, 2, F, 8}
cast!{m16x2, i128x2, M, 2, 2, I, 16}
cast!{m16x2, i16x2, M, 2, 2, I, 2}
cast!{m16x2, i32x2, M, 2, 2, I, 4}
cast!{m16x2, i64x2, M, 2, 2, I, 8}
cast!{m16x2, i8x2, M, 2, 2, I, 1}
cast!{m16x2, isizex2, M, 2, 2, I, 8}
cast!{m16x2, m128x2, M, 2, 2, M, 16}
cast!{m16x2, m32x2, M, 2, 2, M, 4}
cast!{m16x2, m64x2, M, 2, 2, M, 8}
cast!{m16x2, m8x2, M, 2, 2, M, 1}
cast!{m16x2, msizex2, M, 2, 2, M, 8}
cast!{m16x2, u128x2, M, 2, 2, U, 16}
cast!{m16x2, u16x2, M, 2, 2, U, 2}
cast!{m16x2, u32x2, M, 2, 2, U, 4}
cast!{m16x2, u64x2, M, 2, 2, U, 8}
cast!{m16x2, u8x2, M, 2, 2, U, 1}
cast!{m16x2, usizex2, M, 2, 2, U, 8}
cast!{m16x32, i16x32, M, 2, 32, I, 2}
cast!{m16x32, i8x32, M, 2, 32, I, 1}
cast!{m16x32, m8x32, M, 2, 32, M, 1}
cast!{m16x32, u16x32, M, 2, 32, U, 2}
cast!{m16x32, u8x32, M, 2, 32, U, 1}
cast!{m16x4, f32x4, M, 2, 4, F, 4}
cast!{m16x4, f64x4, M, 2, 4, F, 8}
cast!{m16x4, i128x4, M, 2, 4, I, 16}
cast!{m16x4, i16x4, M, 2, 4, I, 2}
cast!{m16x4, i32x4, M, 2, 4, I, 4}
cast!{m16x4, i64x4, M, 2, 4, I, 8}
cast!{m16x4, i8x4, M, 2, 4, I, 1}
cast!{m16x4, isizex4, M, 2, 4, I, 8}
cast!{m16x4, m128x4, M, 2, 4, M, 16}
cast!{m16x4, m32x4, M, 2, 4, M, 4}
cast!{m16x4, m64x4, M, 2, 4, M, 8}
cast!{m16x4, m8x4, M, 2, 4, M, 1}
cast!{m16x4, msizex4, M, 2, 4, M, 8}
cast!{m16x4, u128x4, M, 2, 4, U, 16}
cast!{m16x4, u16x4, M, 2, 4, U, 2}
cast!{m16x4, u32x4, M, 2, 4, U, 4}
cast!{m16x4, u64x4, M, 2, 4, U, 8}
cast!{m16x4, u8x4, M, 2, 4, U, 1}
cast!{m16x4, usizex4, M, 2, 4, U, 8}
cast!{m16x8, f32x8, M, 2, 8, F, 4}
cast!{m16x8, f64x8, M, 2, 8, F, 8}
cast!{m16x8, i16x8, M, 2, 8, I, 2}
cast!{m16x8, i32x8, M, 2, 8, I, 4}
cast!{m16x8, i64x8, M, 2, 8, I, 8}
cast!{m16x8, i8x8, M, 2, 8, I, 1}
cast!{m16x8, isizex8, M, 2, 8, I, 8}
cast!{m16x8, m32x8, M, 2, 8, M, 4}
cast!{m16x8, m64x8, M, 2, 8, M, 8}
cast!{m16x8, m8x8, M, 2, 8, M, 1}
cast!{m16x8, msizex8, M, 2, 8, M, 8}
cast!{m16x8, u16x8, M, 2, 8, U, 2}
cast!{m16x8, u32x8, M, 2, 8, U, 4}
cast!{m16x8, u64x8, M, 2, 8, U, 8}
cast!{m16x8, u8x8, M, 2, 8, U, 1}
cast!{m16x8, usizex8, M, 2, 8, U, 8}
cast!{m32x16, f32x16, M, 4, 16, F, 4}
cast!{m32x16, i16x16, M, 4, 16, I, 2}
cast!{m32x16, i32x16, M, 4, 16, I, 4}
cast!{m32x16, i8x16, M, 4, 16, I, 1}
cast!{m32x16, m16x16, M, 4, 16, M, 2}
cast!{m32x16, m8x16, M, 4, 16, M, 1}
cast!{m32x16, u16x16, M, 4, 16, U, 2}
cast!{m32x16, u32x16, M, 4, 16, U, 4}
cast!{m32x16, u8x16, M, 4, 16, U, 1}
cast!{m32x2, f32x2, M, 4, 2, F, 4}
cast!{m32x2, f64x2, M, 4, 2, F, 8}
cast!{m32x2, i128x2, M, 4, 2, I, 16}
cast!{m32x2, i16x2, M, 4, 2, I, 2}
cast!{m32x2, i32x2, M, 4, 2, I, 4}
cast!{m32x2, i64x2, M, 4, 2, I, 8}
cast!{m32x2, i8x2, M, 4, 2, I, 1}
cast!{m32x2, isizex2, M, 4, 2, I, 8}
cast!{m32x2, m128x2, M, 4, 2, M, 16}
cast!{m32x2, m16x2, M, 4, 2, M, 2}
cast!{m32x2, m64x2, M, 4, 2, M, 8}
cast!{m32x2, m8x2, M, 4, 2, M, 1}
cast!{m32x2, msizex2, M, 4, 2, M, 8}
cast!{m32x2, u128x2, M, 4, 2, U, 16}
cast!{m32x2, u16x2, M, 4, 2, U, 2}
cast!{m32x2, u32x2, M, 4, 2, U, 4}
cast!{m32x2, u64x2, M, 4, 2, U, 8}
cast!{m32x2, u8x2, M, 4, 2, U, 1}
cast!{m32x2, usizex2, M, 4, 2, U, 8}
cast!{m32x4, f32x4, M, 4, 4, F, 4}
cast!{m32x4, f64x4, M, 4, 4, F, 8}
cast!{m32x4, i128x4, M, 4, 4, I, 16}
cast!{m32x4, i16x4, M, 4, 4, I, 2}
cast!{m32x4, i32x4, M, 4, 4, I, 4}
cast!{m32x4, i64x4, M, 4, 4, I, 8}
cast!{m32x4, i8x4, M, 4, 4, I, 1}
cast!{m32x4, isizex4, M, 4, 4, I, 8}
cast!{m32x4, m128x4, M, 4, 4, M, 16}
cast!{m32x4, m16x4, M, 4, 4, M, 2}
cast!{m32x4, m64x4, M, 4, 4, M, 8}
cast!{m32x4, m8x4, M, 4, 4, M, 1}
cast!{m32x4, msizex4, M, 4, 4, M, 8}
cast!{m32x4, u128x4, M, 4, 4, U, 16}
cast!{m32x4, u16x4, M, 4, 4, U, 2}
cast!{m32x4, u32x4, M, 4, 4, U, 4}
cast!{m32x4, u64x4, M, 4, 4, U, 8}
cast!{m32x4, u8x4, M, 4, 4, U, 1}
cast!{m32x4, usizex4, M, 4, 4, U, 8}
cast!{m32x8, f32x8, M, 4, 8, F, 4}
cast!{m32x8, f64x8, M, 4, 8, F, 8}
cast!{m32x8, i16x8, M, 4, 8, I, 2}
cast!{m32x8, i32x8, M, 4, 8, I, 4}
cast!{m32x8, i64x8, M, 4, 8, I, 8}
cast!{m32x8, i8x8, M, 4, 8, I, 1}
cast!{m32x8, isizex8, M, 4, 8, I, 8}
cast!{m32x8, m16x8, M, 4, 8, M, 2}
cast!{m32x8, m64x8, M, 4, 8, M, 8}
cast!{m32x8, m8x8, M, 4, 8, M, 1}
cast!{m32x8, msizex8, M, 4, 8, M, 8}
cast!{m32x8, u16x8, M, 4, 8, U, 2}
cast!{m32x8, u32x8, M, 4, 8, U, 4}
cast!{m32x8, u64x8, M, 4, 8, U, 8}
cast!{m32x8, u8x8, M, 4, 8, U, 1}
cast!{m32x8, usizex8, M, 4, 8, U, 8}
cast!{m64x2, f32x2, M, 8, 2, F, 4}
cast!{m64x2, f64x2, M, 8, 2, F, 8}
cast!{m64x2, i128x2, M, 8, 2, I, 16}
cast!{m64x2, i16x2, M, 8, 2, I, 2}
cast!{m64x2, i32x2, M, 8, 2, I, 4}
cast!{m64x2, i64x2, M, 8, 2, I, 8}
cast!{m64x2, i8x2, M, 8, 2, I, 1}
cast!{m64x2, isizex2, M, 8, 2, I, 8}
cast!{m64x2, m128x2, M, 8, 2, M, 16}
cast!{m64x2, m16x2, M, 8, 2, M, 2}
cast!{m64x2, m32x2, M, 8, 2, M, 4}
cast!{m64x2, m8x2, M, 8, 2, M, 1}
cast!{m64x2, msizex2, M, 8, 2, M, 8}
cast!{m64x2, u128x2, M, 8, 2, U, 16}
cast!{m64x2, u16x2, M, 8, 2, U, 2}
cast!{m64x2, u32x2, M, 8, 2, U, 4}
cast!{m64x2, u64x2, M, 8, 2, U, 8}
cast!{m64x2, u8x2, M, 8, 2, U, 1}
cast!{m64x2, usizex2, M, 8, 2, U, 8}
cast!{m64x4, f32x4, M, 8, 4, F, 4}
cast!{m64x4, f64x4, M, 8, 4, F, 8}
cast!{m64x4, i128x4, M, 8, 4, I, 16}
cast!{m64x4, i16x4, M, 8, 4, I, 2}
cast!{m64x4, i32x4, M, 8, 4, I, 4}
cast!{m64x4, i64x4, M, 8, 4, I, 8}
cast!{m64x4, i8x4, M, 8, 4, I, 1}
cast!{m64x4, isizex4, M, 8, 4, I, 8}
cast!{m64x4, m128x4, M, 8, 4, M, 16}
cast!{m64x4, m16x4, M, 8, 4, M, 2}
cast!{m64x4, m32x4, M, 8, 4, M, 4}
cast!{m64x4, m8x4, M, 8, 4, M, 1}
cast!{m64x4, msizex4, M, 8, 4, M, 8}
cast!{m64x4, u128x4, M, 8, 4, U, 16}
cast!{m64x4, u16x4, M, 8, 4, U, 2}
cast!{m64x4, u32x4, M, 8, 4, U, 4}
cast!{m64x4, u64x4, M, 8, 4, U, 8}
cast!{m64x4, u8x4, M, 8, 4, U, 1}
cast!{m64x4, usizex4, M, 8, 4, U, 8}
cast!{m64x8, f32x8, M, 8, 8, F, 4}
cast!{m64x8, f64x8, M, 8, 8, F, 8}
cast!{m64x8, i16x8, M, 8, 8, I, 2}
cast!{m64x8, i32x8, M, 8, 8, I, 4}
cast!{m64x8, i64x8, M, 8, 8, I, 8}
cast!{m64x8, i8x8, M, 8, 8, I, 1}
cast!{m64x8, isizex8, M, 8, 8, I, 8}
cast!{m64x8, m16x8, M, 8, 8, M, 2}
cast!{m64x8, m32x8, M, 8, 8, M, 4}
cast!{m64x8, m8x8, M, 8, 8, M, 1}
cast!{m64x8, msizex8, M, 8, 8, M, 8}
cast!{m64x8, u16x8, M, 8, 8, U, 2}
cast!{m64x8, u32x8, M, 8, 8, U, 4}
cast!{m64x8, u64x8, M, 8, 8, U, 8}
cast!{m64x8, u8x8, M, 8, 8, U, 1}
cast!{m64x8, usizex8, M, 8, 8, U, 8}
cast!{m8x16, f32x16, M, 1, 16, F, 4}
cast!{m8x16, i16x16, M, 1, 16, I, 2}
cast!{m8x16, i32x16, M, 1, 16, I, 4}
cast!{m8x16, i8x16, M, 1, 16, I, 1}
cast!{m8x16, m16x16, M, 1, 16, M, 2}
cast!{m8x16, m32x16, M, 1, 16, M, 4}
cast!{m8x16, u16x16, M, 1, 16, U, 2}
cast!{m8x16, u32x16, M, 1, 16, U, 4}
cast!{m8x16, u8x16, M, 1, 16, U, 1}
cast!{m8x2, f32x2, M, 1, 2, F, 4}
cast!{m8x2, f64x2, M, 1, 2, F, 8}
cast!{m8x2, i128x2, M, 1, 2, I, 16}
cast!{m8x2, i16x2, M, 1, 2, I, 2}
cast!{m8x2, i32x2, M, 1, 2, I, 4}
cast!{m8x2, i64x2, M, 1, 2, I, 8}
cast!{m8x2, i8x2, M, 1, 2, I, 1}
cast!{m8x2, isizex2, M, 1, 2, I, 8}
cast!{m8x2, m128x2, M, 1, 2, M, 16}
cast!{m8x2, m16x2, M, 1, 2, M, 2}
cast!{m8x2, m32x2, M, 1, 2, M, 4}
cast!{m8x2, m64x2, M, 1, 2, M, 8}
cast!{m8x2, msizex2, M, 1, 2, M, 8}
cast!{m8x2, u128x2, M, 1, 2, U, 16}
cast!{m8x2, u16x2, M, 1, 2, U, 2}
cast!{m8x2, u32x2, M, 1, 2, U, 4}
cast!{m8x2, u64x2, M, 1, 2, U, 8}
cast!{m8x2, u8x2, M, 1, 2, U, 1}
cast!{m8x2, usizex2, M, 1, 2, U, 8}
cast!{m8x32, i16x32, M, 1, 32, I, 2}
cast!{m8x32, i8x32, M, 1, 32, I, 1}
cast!{m8x32, m16x32, M, 1, 32, M, 2}
cast!{m8x32, u16x32, M, 1, 32, U, 2}
cast!{m8x32, u8x32, M, 1, 32, U, 1}
cast!{m8x4, f32x4, M, 1, 4, F, 4}
cast!{m8x4, f64x4, M, 1, 4, F, 8}
cast!{m8x4, i128x4, M, 1, 4, I, 16}
cast!{m8x4, i16x4, M, 1, 4, I, 2}
cast!{m8x4, i32x4, M, 1, 4, I, 4}
cast!{m8x4, i64x4, M, 1, 4, I, 8}
cast!{m8x4, i8x4, M, 1, 4, I, 1}
cast!{m8x4, isizex4, M, 1, 4, I, 8}
cast!{m8x4, m128x4, M, 1, 4, M, 16}
cast!{m8x4, m16x4, M, 1, 4, M, 2}
cast!{m8x4, m32x4, M, 1, 4, M, 4}
cast!{m8x4, m64x4, M, 1, 4, M, 8}
cast!{m8x4, msizex4, M, 1, 4, M, 8}
cast!{m8x4, u128x4, M, 1, 4, U, 16}
cast!{m8x4, u16x4, M, 1, 4, U, 2}
cast!{m8x4, u32x4, M, 1, 4, U, 4}
cast!{m8x4, u64x4, M, 1, 4, U, 8}
cast!{m8x4, u8x4, M, 1, 4, U, 1}
cast!{m8x4, usizex4, M, 1, 4, U, 8}
cast!{m8x64, i8x64, M, 1, 64, I, 1}
cast!{m8x64, u8x64, M, 1, 64, U, 1}
cast!{m8x8, f32x8, M, 1, 8, F, 4}
cast!{m8x8, f64x8, M, 1, 8, F, 8}
cast!{m8x8, i16x8, M, 1, 8, I, 2}
cast!{m8x8, i32x8, M, 1, 8, I, 4}
cast!{m8x8, i64x8, M, 1, 8, I, 8}
cast!{m8x8, i8x8, M, 1, 8, I, 1}
cast!{m8x8, isizex8, M, 1, 8, I, 8}
cast!{m8x8, m16x8, M, 1, 8, M, 2}
cast!{m8x8, m32x8, M, 1, 8, M, 4}
cast!{m8x8, m64x8, M, 1, 8, M, 8}
cast!{m8x8, msizex8, M, 1, 8, M, 8}
cast!{m8x8, u16x8, M, 1, 8, U, 2}
cast!{m8x8, u32x8, M, 1, 8, U, 4}
cast!{m8x8, u64x8, M, 1, 8, U, 8}
cast!{m8x8, u8x8, M, 1, 8, U, 1}
cast!{m8x8, usizex8, M, 1, 8, U, 8}
cast!{msizex2, f32x2, M, 8, 2, F, 4}
cast!{msizex2, f64x2, M, 8, 2, F, 8}
cast!{msizex2, i128x2, M, 8, 2, I, 16}
cast!{msizex2, i16x2, M, 8, 2, I, 2}
cast!{msizex2, i32x2, M, 8, 2, I, 4}
cast!{msizex2, i64x2, M, 8, 2, I, 8}
cast!{msizex2, i8x2, M, 8, 2, I, 1}
cast!{msizex2, isizex2, M, 8, 2, I, 8}
cast!{msizex2, m128x2, M, 8, 2, M, 16}
cast!{msizex2, m16x2, M, 8, 2, M, 2}
cast!{msizex2, m32x2, M, 8, 2, M, 4}
cast!{msizex2, m64x2, M, 8, 2, M, 8}
cast!{msizex2, m8x2, M, 8, 2, M, 1}
cast!{msizex2, u128x2, M, 8, 2, U, 16}
cast!{msizex2, u16x2, M, 8, 2, U, 2}
cast!{msizex2, u32x2, M, 8, 2, U, 4}
cast!{msizex2, u64x2, M, 8, 2, U, 8}
cast!{msizex2, u8x2, M, 8, 2, U, 1}
cast!{msizex2, usizex2, M, 8, 2, U, 8}
cast!{msizex4, f32x4, M, 8, 4, F, 4}
cast!{msizex4, f64x4, M, 8, 4, F, 8}
cast!{msizex4, i128x4, M, 8, 4, I, 16}
cast!{msizex4, i16x4, M, 8, 4, I, 2}
cast!{msizex4, i32x4, M, 8, 4, I, 4}
cast!{msizex4, i64x4, M, 8, 4, I, 8}
cast!{msizex4, i8x4, M, 8, 4, I, 1}
cast!{msizex4, isizex4, M, 8, 4, I, 8}
cast!{msizex4, m128x4, M, 8, 4, M, 16}
cast!{msizex4, m16x4, M, 8, 4, M, 2}
cast!{msizex4, m32x4, M, 8, 4, M, 4}
cast!{msizex4, m64x4, M, 8, 4, M, 8}
cast!{msizex4, m8x4, M, 8, 4, M, 1}
cast!{msizex4, u128x4, M, 8, 4, U, 16}
cast!{msizex4, u16x4, M, 8, 4, U, 2}
cast!{msizex4, u32x4, M, 8, 4, U, 4}
cast!{msizex4, u64x4, M, 8, 4, U, 8}
cast!{msizex4, u8x4, M, 8, 4, U, 1}
cast!{msizex4, usizex4, M, 8, 4, U, 8}
cast!{msizex8, f32x8, M, 8, 8, F, 4}
cast!{msizex8, f64x8, M, 8, 8, F, 8}
cast!{msizex8, i16x8, M, 8, 8, I, 2}
cast!{msizex8, i32x8, M, 8, 8, I, 4}
cast!{msizex8, i64x8, M, 8, 8, I, 8}
cast!{msizex8, i8x8, M, 8, 8, I, 1}
cast!{msizex8, isizex8, M, 8, 8, I, 8}
cast!{msizex8, m16x8, M, 8, 8, M, 2}
cast!{msizex8, m32x8, M, 8, 8, M, 4}
cast!{msizex8, m64x8, M, 8, 8, M, 8}
cast!{msizex8, m8x8, M, 8, 8, M, 1}
cast!{msizex8, u16x8, M, 8, 8, U, 2}
cast!{msizex8, u32x8, M, 8, 8, U, 4}
cast!{msizex8, u64x8, M, 8, 8, U, 8}
cast!{msizex8, u8x8, M, 8, 8, U, 1}
cast!{msizex8, usizex8, M, 8, 8, U, 8}
cast!{u128x1, i128x1, U, 16, 1, I, 16}
cast!{u128x1, m128x1, U, 16, 1, M, 16}
cast!{u128x2, f32x2, U, 16, 2, F, 4}
cast!{u128x2, f64x2, U, 16, 2, F, 8}
cast!{u128x2, i128x2, U, 16, 2, I, 16}
cast!{u128x2, i16x2, U, 16, 2, I, 2}
cast!{u128x2, i32x2, U, 16, 2, I, 4}
cast!{u128x2, i64x2, U, 16, 2, I, 8}
cast!{u128x2, i8x2, U, 16, 2, I, 1}
cast!{u128x2, isizex2, U, 16, 2, I, 8}
cast!{u128x2, m128x2, U, 16, 2, M, 16}
cast!{u128x2, m16x2, U, 16, 2, M, 2}
cast!{u128x2, m32x2, U, 16, 2, M, 4}
cast!{u128x2, m64x2, U, 16, 2, M, 8}
cast!{u128x2, m8x2, U, 16, 2, M, 1}
cast!{u128x2, msizex2, U, 16, 2, M, 8}
cast!{u128x2, u16x2, U, 16, 2, U, 2}
cast!{u128x2, u32x2, U, 16, 2, U, 4}
cast!{u128x2, u64x2, U, 16, 2, U, 8}
cast!{u128x2, u8x2, U, 16, 2, U, 1}
cast!{u128x2, usizex2, U, 16, 2, U, 8}
cast!{u128x4, f32x4, U, 16, 4, F, 4}
cast!{u128x4, f64x4, U, 16, 4, F, 8}
cast!{u128x4, i128x4, U, 16, 4, I, 16}
cast!{u128x4, i16x4, U, 16, 4, I, 2}
cast!{u128x4, i32x4, U, 16, 4, I, 4}
cast!{u128x4, i64x4, U, 16, 4, I, 8}
cast!{u128x4, i8x4, U, 16, 4, I, 1}
cast!{u128x4, isizex4, U, 16, 4, I, 8}
cast!{u128x4, m128x4, U, 16, 4, M, 16}
cast!{u128x4, m16x4, U, 16, 4, M, 2}
cast!{u128x4, m32x4, U, 16, 4, M, 4}
cast!{u128x4, m64x4, U, 16, 4, M, 8}
cast!{u128x4, m8x4, U, 16, 4, M, 1}
cast!{u128x4, msizex4, U, 16, 4, M, 8}
cast!{u128x4, u16x4, U, 16, 4, U, 2}
cast!{u128x4, u32x4, U, 16, 4, U, 4}
cast!{u128x4, u64x4, U, 16, 4, U, 8}
cast!{u128x4, u8x4, U, 16, 4, U, 1}
cast!{u128x4, usizex4, U, 16, 4, U, 8}
cast!{u16x16, f32x16, U, 2, 16, F, 4}
cast!{u16x16, i16x16, U, 2, 16, I, 2}
cast!{u16x16, i32x16, U, 2, 16, I, 4}
cast!{u16x16, i8x16, U, 2, 16, I, 1}
cast!{u16x16, m16x16, U, 2, 16, M, 2}
cast!{u16x16, m32x16, U, 2, 16, M, 4}
cast!{u16x16, m8x16, U, 2, 16, M, 1}
cast!{u16x16, u32x16, U, 2, 16, U, 4}
cast!{u16x16, u8x16, U, 2, 16, U, 1}
cast!{u16x2, f32x2, U, 2, 2, F, 4}
cast!{u16x2, f64x2, U, 2, 2, F, 8}
cast!{u16x2, i128x2, U, 2, 2, I, 16}
cast!{u16x2, i16x2, U, 2, 2, I, 2}
cast!{u16x2, i32x2, U, 2, 2, I, 4}
cast!{u16x2, i64x2, U, 2, 2, I, 8}
cast!{u16x2, i8x2, U, 2, 2, I, 1}
cast!{u16x2, isizex2, U, 2, 2, I, 8}
cast!{u16x2, m128x2, U, 2, 2, M, 16}
cast!{u16x2, m16x2, U, 2, 2, M, 2}
cast!{u16x2, m32x2, U, 2, 2, M, 4}
cast!{u16x2, m64x2, U, 2, 2, M, 8}
cast!{u16x2, m8x2, U, 2, 2, M, 1}
cast!{u16x2, msizex2, U, 2, 2, M, 8}
cast!{u16x2, u128x2, U, 2, 2, U, 16}
cast!{u16x2, u32x2, U, 2, 2, U, 4}
cast!{u16x2, u64x2, U, 2, 2, U, 8}
cast!{u16x2, u8x2, U, 2, 2, U, 1}
cast!{u16x2, usizex2, U, 2, 2, U, 8}
cast!{u16x32, i16x32, U, 2, 32, I, 2}
cast!{u16x32, i8x32, U, 2, 32, I, 1}
cast!{u16x32, m16x32, U, 2, 32, M, 2}
cast!{u16x32, m8x32, U, 2, 32, M, 1}
cast!{u16x32, u8x32, U, 2, 32, U, 1}
cast!{u16x4, f32x4, U, 2, 4, F, 4}
cast!{u16x4, f64x4, U, 2, 4, F, 8}
cast!{u16x4, i128x4, U, 2, 4, I, 16}
cast!{u16x4, i16x4, U, 2, 4, I, 2}
cast!{u16x4, i32x4, U, 2, 4, I, 4}
cast!{u16x4, i64x4, U, 2, 4, I, 8}
cast!{u16x4, i8x4, U, 2, 4, I, 1}
cast!{u16x4, isizex4, U, 2, 4, I, 8}
cast!{u16x4, m128x4, U, 2, 4, M, 16}
cast!{u16x4, m16x4, U, 2, 4, M, 2}
cast!{u16x4, m32x4, U, 2, 4, M, 4}
cast!{u16x4, m64x4, U, 2, 4, M, 8}
cast!{u16x4, m8x4, U, 2, 4, M, 1}
cast!{u16x4, msizex4, U, 2, 4, M, 8}
cast!{u16x4, u128x4, U, 2, 4, U, 16}
cast!{u16x4, u32x4, U, 2, 4, U, 4}
cast!{u16x4, u64x4, U, 2, 4, U, 8}
cast!{u16x4, u8x4, U, 2, 4, U, 1}
cast!{u16x4, usizex4, U, 2, 4, U, 8}
cast!{u16x8, f32x8, U, 2, 8, F, 4}
cast!{u16x8, f64x8, U, 2, 8, F, 8}
cast!{u16x8, i16x8, U, 2, 8, I, 2}
cast!{u16x8, i32x8, U, 2, 8, I, 4}
cast!{u16x8, i64x8, U, 2, 8, I, 8}
cast!{u16x8, i8x8, U, 2, 8, I, 1}
cast!{u16x8, isizex8, U, 2, 8, I, 8}
cast!{u16x8, m16x8, U, 2, 8, M, 2}
cast!{u16x8, m32x8, U, 2, 8, M, 4}
cast!{u16x8, m64x8, U, 2, 8, M, 8}
cast!{u16x8, m8x8, U, 2, 8, M, 1}
cast!{u16x8, msizex8, U, 2, 8, M, 8}
cast!{u16x8, u32x8, U, 2, 8, U, 4}
cast!{u16x8, u64x8, U, 2, 8, U, 8}
cast!{u16x8, u8x8, U, 2, 8, U, 1}
cast!{u16x8, usizex8, U, 2, 8, U, 8}
cast!{u32x16, f32x16, U, 4, 16, F, 4}
cast!{u32x16, i16x16, U, 4, 16, I, 2}
cast!{u32x16, i32x16, U, 4, 16, I, 4}
cast!{u32x16, i8x16, U, 4, 16, I, 1}
cast!{u32x16, m16x16, U, 4, 16, M, 2}
cast!{u32x16, m32x16, U, 4, 16, M, 4}
cast!{u32x16, m8x16, U, 4, 16, M, 1}
cast!{u32x16, u16x16, U, 4, 16, U, 2}
cast!{u32x16, u8x16, U, 4, 16, U, 1}
cast!{u32x2, f32x2, U, 4, 2, F, 4}
cast!{u32x2, f64x2, U, 4, 2, F, 8}
cast!{u32x2, i128x2, U, 4, 2, I, 16}
cast!{u32x2, i16x2, U, 4, 2, I, 2}
cast!{u32x2, i32x2, U, 4, 2, I, 4}
cast!{u32x2, i64x2, U, 4, 2, I, 8}
cast!{u32x2, i8x2, U, 4, 2, I, 1}
cast!{u32x2, isizex2, U, 4, 2, I, 8}
cast!{u32x2, m128x2, U, 4, 2, M, 16}
cast!{u32x2, m16x2, U, 4, 2, M, 2}
cast!{u32x2, m32x2, U, 4, 2, M, 4}
cast!{u32x2, m64x2, U, 4, 2, M, 8}
cast!{u32x2, m8x2, U, 4, 2, M, 1}
cast!{u32x2, msizex2, U, 4, 2, M, 8}
cast!{u32x2, u128x2, U, 4, 2, U, 16}
cast!{u32x2, u16x2, U, 4, 2, U, 2}
cast!{u32x2, u64x2, U, 4, 2, U, 8}
cast!{u32x2, u8x2, U, 4, 2, U, 1}
cast!{u32x2, usizex2, U, 4, 2, U, 8}
cast!{u32x4, f32x4, U, 4, 4, F, 4}
cast!{u32x4, f64x4, U, 4, 4, F, 8}
cast!{u32x4, i128x4, U, 4, 4, I, 16}
cast!{u32x4, i16x4, U, 4, 4, I, 2}
cast!{u32x4, i32x4, U, 4, 4, I, 4}
cast!{u32x4, i64x4, U, 4, 4, I, 8}
cast!{u32x4, i8x4, U, 4, 4, I, 1}
cast!{u32x4, isizex4, U, 4, 4, I, 8}
cast!{u32x4, m128x4, U, 4, 4, M, 16}
cast!{u32x4, m16x4, U, 4, 4, M, 2}
cast!{u32x4, m32x4, U, 4, 4, M, 4}
cast!{u32x4, m64x4, U, 4, 4, M, 8}
cast!{u32x4, m8x4, U, 4, 4, M, 1}
cast!{u32x4, msizex4, U, 4, 4, M, 8}
cast!{u32x4, u128x4, U, 4, 4, U, 16}
cast!{u32x4, u16x4, U, 4, 4, U, 2}
cast!{u32x4, u64x4, U, 4, 4, U, 8}
cast!{u32x4, u8x4, U, 4, 4, U, 1}
cast!{u32x4, usizex4, U, 4, 4, U, 8}
cast!{u32x8, f32x8, U, 4, 8, F, 4}
cast!{u32x8, f64x8, U, 4, 8, F, 8}
cast!{u32x8, i16x8, U, 4, 8, I, 2}
cast!{u32x8, i32x8, U, 4, 8, I, 4}
cast!{u32x8, i64x8, U, 4, 8, I, 8}
cast!{u32x8, i8x8, U, 4, 8, I, 1}
cast!{u32x8, isizex8, U, 4, 8, I, 8}
cast!{u32x8, m16x8, U, 4, 8, M, 2}
cast!{u32x8, m32x8, U, 4, 8, M, 4}
cast!{u32x8, m64x8, U, 4, 8, M, 8}
cast!{u32x8, m8x8, U, 4, 8, M, 1}
cast!{u32x8, msizex8, U, 4, 8, M, 8}
cast!{u32x8, u16x8, U, 4, 8, U, 2}
cast!{u32x8, u64x8, U, 4, 8, U, 8}
cast!{u32x8, u8x8, U, 4, 8, U, 1}
cast!{u32x8, usizex8, U, 4, 8, U, 8}
cast!{u64x2, f32x2, U, 8, 2, F, 4}
cast!{u64x2, f64x2, U, 8, 2, F, 8}
cast!{u64x2, i128x2, U, 8, 2, I, 16}
cast!{u64x2, i16x2, U, 8, 2, I, 2}
cast!{u64x2, i32x2, U, 8, 2, I, 4}
cast!{u64x2, i64x2, U, 8, 2, I, 8}
cast!{u64x2, i8x2, U, 8, 2, I, 1}
cast!{u64x2, isizex2, U, 8, 2, I, 8}
cast!{u64x2, m128x2, U, 8, 2, M, 16}
cast!{u64x2, m16x2, U, 8, 2, M, 2}
cast!{u64x2, m32x2, U, 8, 2, M, 4}
cast!{u64x2, m64x2, U, 8, 2, M, 8}
cast!{u64x2, m8x2, U, 8, 2, M, 1}
cast!{u64x2, msizex2, U, 8, 2, M, 8}
cast!{u64x2, u128x2, U, 8, 2, U, 16}
cast!{u64x2, u16x2, U, 8, 2, U, 2}
cast!{u64x2, u32x2, U, 8, 2, U, 4}
cast!{u64x2, u8x2, U, 8, 2, U, 1}
cast!{u64x2, usizex2, U, 8, 2, U, 8}
cast!{u64x4, f32x4, U, 8, 4, F, 4}
cast!{u64x4, f64x4, U, 8, 4, F, 8}
cast!{u64x4, i128x4, U, 8, 4, I, 16}
cast!{u64x4, i16x4, U, 8, 4, I, 2}
cast!{u64x4, i32x4, U, 8, 4, I, 4}
cast!{u64x4, i64x4, U, 8, 4, I, 8}
cast!{u64x4, i8x4, U, 8, 4, I, 1}
cast!{u64x4, isizex4, U, 8, 4, I, 8}
cast!{u64x4, m128x4, U, 8, 4, M, 16}
cast!{u64x4, m16x4, U, 8, 4, M, 2}
cast!{u64x4, m32x4, U, 8, 4, M, 4}
cast!{u64x4, m64x4, U, 8, 4, M, 8}
cast!{u64x4, m8x4, U, 8, 4, M, 1}
cast!{u64x4, msizex4, U, 8, 4, M, 8}
cast!{u64x4, u128x4, U, 8, 4, U, 16}
cast!{u64x4, u16x4, U, 8, 4, U, 2}
cast!{u64x4, u32x4, U, 8, 4, U, 4}
cast!{u64x4, u8x4, U, 8, 4, U, 1}
cast!{u64x4, usizex4, U, 8, 4, U, 8}
cast!{u64x8, f32x8, U, 8, 8, F, 4}
cast!{u64x8, f64x8, U, 8, 8, F, 8}
cast!{u64x8, i16x8, U, 8, 8, I, 2}
cast!{u64x8, i32x8, U, 8, 8, I, 4}
cast!{u64x8, i64x8, U, 8, 8, I, 8}
cast!{u64x8, i8x8, U, 8, 8, I, 1}
cast!{u64x8, isizex8, U, 8, 8, I, 8}
cast!{u64x8, m16x8, U, 8, 8, M, 2}
cast!{u64x8, m32x8, U, 8, 8, M, 4}
cast!{u64x8, m64x8, U, 8, 8, M, 8}
cast!{u64x8, m8x8, U, 8, 8, M, 1}
cast!{u64x8, msizex8, U, 8, 8, M, 8}
cast!{u64x8, u16x8, U, 8, 8, U, 2}
cast!{u64x8, u32x8, U, 8, 8, U, 4}
cast!{u64x8, u8x8, U, 8, 8, U, 1}
cast!{u64x8, usizex8, U, 8, 8, U, 8}
cast!{u8x16, f32x16, U, 1, 16, F, 4}
cast!{u8x16, i16x16, U, 1, 16, I, 2}
cast!{u8x16, i32x16, U, 1, 16, I, 4}
cast!{u8x16, i8x16, U, 1, 16, I, 1}
cast!{u8x16, m16x16, U, 1, 16, M, 2}
cast!{u8x16, m32x16, U, 1, 16, M, 4}
cast!{u8x16, m8x16, U, 1, 16, M, 1}
cast!{u8x16, u16x16, U, 1, 16, U, 2}
cast!{u8x16, u32x16, U, 1, 16, U, 4}
cast!{u8x2, f32x2, U, 1, 2, F, 4}
cast!{u8x2, f64x2, U, 1, 2, F, 8}
cast!{u8x2, i128x2, U, 1, 2, I, 16}
cast!{u8x2, i16x2, U, 1, 2, I, 2}
cast!{u8x2, i32x2, U, 1, 2, I, 4}
cast!{u8x2, i64x2, U, 1, 2, I, 8}
cast!{u8x2, i8x2, U, 1, 2, I, 1}
cast!{u8x2, isizex2, U, 1, 2, I, 8}
cast!{u8x2, m128x2, U, 1, 2, M, 16}
cast!{u8x2, m16x2, U, 1, 2, M, 2}
cast!{u8x2, m32x2, U, 1, 2, M, 4}
cast!{u8x2, m64x2, U, 1, 2, M, 8}
cast!{u8x2, m8x2, U, 1, 2, M, 1}
cast!{u8x2, msizex2, U, 1, 2, M, 8}
cast!{u8x2, u128x2, U, 1, 2, U, 16}
cast!{u8x2, u16x2, U, 1, 2, U, 2}
cast!{u8x2, u32x2, U, 1, 2, U, 4}
cast!{u8x2, u64x2, U, 1, 2, U, 8}
cast!{u8x2, usizex2, U, 1, 2, U, 8}
cast!{u8x32, i16x32, U, 1, 32, I, 2}
cast!{u8x32, i8x32, U, 1, 32, I, 1}
cast!{u8x32, m16x32, U, 1, 32, M, 2}
cast!{u8x32, m8x32, U, 1, 32, M, 1}
cast!{u8x32, u16x32, U, 1, 32, U, 2}
cast!{u8x4, f32x4, U, 1, 4, F, 4}
cast!{u8x4, f64x4, U, 1, 4, F, 8}
cast!{u8x4, i128x4, U, 1, 4, I, 16}
cast!{u8x4, i16x4, U, 1, 4, I, 2}
cast!{u8x4, i32x4, U, 1, 4, I, 4}
cast!{u8x4, i64x4, U, 1, 4, I, 8}
cast!{u8x4, i8x4, U, 1, 4, I, 1}
cast!{u8x4, isizex4, U, 1, 4, I, 8}
cast!{u8x4, m128x4, U, 1, 4, M, 16}
cast!{u8x4, m16x4, U, 1, 4, M, 2}
cast!{u8x4, m32x4, U, 1, 4, M, 4}
cast!{u8x4, m64x4, U, 1, 4, M, 8}
cast!{u8x4, m8x4, U, 1, 4, M, 1}
cast!{u8x4, msizex4, U, 1, 4, M, 8}
cast!{u8x4, u128x4, U, 1, 4, U, 16}
cast!{u8x4, u16x4, U, 1, 4, U, 2}
cast!{u8x4, u32x4, U, 1, 4, U, 4}
cast!{u8x4, u64x4, U, 1, 4, U, 8}
cast!{u8x4, usizex4, U, 1, 4, U, 8}
cast!{u8x64, i8x64, U, 1, 64, I, 1}
cast!{u8x64, m8x64, U, 1, 64, M, 1}
cast!{u8x8, f32x8, U, 1, 8, F, 4}
cast!{u8x8, f64x8, U, 1, 8, F, 8}
cast!{u8x8, i16x8, U, 1, 8, I, 2}
cast!{u8x8, i32x8, U, 1, 8, I, 4}
cast!{u8x8, i64x8, U, 1, 8, I, 8}
cast!{u8x8, i8x8, U, 1, 8, I, 1}
cast!{u8x8, isizex8, U, 1, 8, I, 8}
cast!{u8x8, m16x8, U, 1, 8, M, 2}
cast!{u8x8, m32x8, U, 1, 8, M, 4}
cast!{u8x8, m64x8, U, 1, 8, M, 8}
cast!{u8x8, m8x8, U, 1, 8, M, 1}
cast!{u8x8, msizex8, U, 1, 8, M, 8}
cast!{u8x8, u16x8, U, 1, 8, U, 2}
cast!{u8x8, u32x8, U, 1, 8, U, 4}
cast!{u8x8, u64x8, U, 1, 8, U, 8}
cast!{u8x8, usizex8, U, 1, 8, U, 8}
cast!{usizex2, f32x2, U, 8, 2, F, 4}
cast!{usizex2, f64x2, U, 8, 2, F, 8}
cast!{usizex2, i128x2, U, 8, 2, I, 16}
cast!{usizex2, i16x2, U, 8, 2, I, 2}
cast!{usizex2, i32x2, U, 8, 2, I, 4}
cast!{usizex2, i64x2, U, 8, 2, I, 8}
cast!{usizex2, i8x2, U, 8, 2, I, 1}
cast!{usizex2, isizex2, U, 8, 2, I, 8}
cast!{usizex2, m128x2, U, 8, 2, M, 16}
cast!{usizex2, m16x2, U, 8, 2, M, 2}
cast!{usizex2, m32x2, U, 8, 2, M, 4}
cast!{usizex2, m64x2, U, 8, 2, M, 8}
cast!{usizex2, m8x2, U, 8, 2, M, 1}
cast!{usizex2, msizex2, U, 8, 2, M, 8}
cast!{usizex2, u128x2, U, 8, 2, U, 16}
cast!{usizex2, u16x2, U, 8, 2, U, 2}
cast!{usizex2, u32x2, U, 8, 2, U, 4}
cast!{usizex2, u64x2, U, 8, 2, U, 8}
cast!{usizex2, u8x2, U, 8, 2, U, 1}
cast!{usizex4, f32x4, U, 8, 4, F, 4}
cast!{usizex4, f64x4, U, 8, 4, F, 8}
cast!{usizex4, i128x4, U, 8, 4, I, 16}
cast!{usizex4, i16x4, U, 8, 4, I, 2}
cast!{usizex4, i32x4, U, 8, 4, I, 4}
cast!{usizex4, i64x4, U, 8, 4, I, 8}
cast!{usizex4, i8x4, U, 8, 4, I, 1}
cast!{usizex4, isizex4, U, 8, 4, I, 8}
cast!{usizex4, m128x4, U, 8, 4, M, 16}
cast!{usizex4, m16x4, U, 8, 4, M, 2}
cast!{usizex4, m32x4, U, 8, 4, M, 4}
cast!{usizex4, m64x4, U, 8, 4, M, 8}
cast!{usizex4, m8x4, U, 8, 4, M, 1}
cast!{usizex4, msizex4, U, 8, 4, M, 8}
cast!{usizex4, u128x4, U, 8, 4, U, 16}
cast!{usizex4, u16x4, U, 8, 4, U, 2}
cast!{usizex4, u32x4, U, 8, 4, U, 4}
cast!{usizex4, u64x4, U, 8, 4, U, 8}
cast!{usizex4, u8x4, U, 8, 4, U, 1}
cast!{usizex8, f32x8, U, 8, 8, F, 4}
cast!{usizex8, f64x8, U, 8, 8, F, 8}
cast!{usizex8, i16x8, U, 8, 8, I, 2}
cast!{usizex8, i32x8, U, 8, 8, I, 4}
cast!{usizex8, i64x8, U, 8, 8, I, 8}
cast!{usizex8, i8x8, U, 8, 8, I, 1}
cast!{usizex8, isizex8, U, 8, 8, I, 8}
cast!{usizex8, m16x8, U, 8, 8, M, 2}
cast!{usizex8, m32x8, U, 8, 8, M, 4}
cast!{usizex8, m64x8, U, 8, 8, M, 8}
cast!{usizex8, m8x8, U, 8, 8, M, 1}
cast!{usizex8, msizex8, U, 8, 8, M, 8}
cast!{usizex8, u16x8, U, 8, 8, U, 2}
cast!{usizex8, u32x8, U, 8, 8, U, 4}
cast!{usizex8, u64x8, U, 8, 8, U, 8}
cast!{usizex8, u8x8, U, 8, 8, U, 1}
}
