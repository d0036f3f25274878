// generated by tools/mklists.py
fn list_bits() {
bits!{__m128, f32x4, U, 1, 16, F}
bits!{__m128, f64x2, U, 1, 16, F}
bits!{__m128, i128x1, U, 1, 16, I}
bits!{__m128, i16x8, U, 1, 16, I}
bits!{__m128, i32x4, U, 1, 16, I}
bits!{__m128, i64x2, U, 1, 16, I}
bits!{__m128, i8x16, U, 1, 16, I}
bits!{__m128, u128x1, U, 1, 16, U}
bits!{__m128, u16x8, U, 1, 16, U}
bits!{__m128, u32x4, U, 1, 16, U}
bits!{__m128, u64x2, U, 1, 16, U}
bits!{__m128, u8x16, U, 1, 16, U}
bits!{__m128d, f32x4, U, 1, 16, F}
bits!{__m128d, f64x2, U, 1, 16, F}
bits!{__m128d, i128x1, U, 1, 16, I}
bits!{__m128d, i16x8, U, 1, 16, I}
bits!{__m128d, i32x4, U, 1, 16, I}
bits!{__m128d, i64x2, U, 1, 16, I}
bits!{__m128d, i8x16, U, 1, 16, I}
bits!{__m128d, u128x1, U, 1, 16, U}
bits!{__m128d, u16x8, U, 1, 16, U}
bits!{__m128d, u32x4, U, 1, 16, U}
bits!{__m128d, u64x2, U, 1, 16, U}
bits!{__m128d, u8x16, U, 1, 16, U}
bits!{__m128i, f32x4, U, 1, 16, F}
bits!{__m128i, f64x2, U, 1, 16, F}
bits!{__m128i, i128x1, U, 1, 16, I}
bits!{__m128i, i16x8, U, 1, 16, I}
bits!{__m128i, i32x4, U, 1, 16, I}
bits!{__m128i, i64x2, U, 1, 16, I}
bits!{__m128i, i8x16, U, 1, 16, I}
bits!{__m128i, u128x1, U, 1, 16, U}
bits!{__m128i, u16x8, U, 1, 16, U}
bits!{__m128i, u32x4, U, 1, 16, U}
bits!{__m128i, u64x2, U, 1, 16, U}
bits!{__m128i, u8x16, U, 1, 16, U}
bits!{__m256, f32x8, U, 1, 32, F}
bits!{__m256, f64x4, U, 1, 32, F}
bits!{__m256, i128x2, U, 1, 32, I}
bits!{__m256, i16x16, U, 1, 32, I}
bits!{__m256, i32x8, U, 1, 32, I}
bits!{__m256, i64x4, U, 1, 32, I}
bits!{__m256, i8x32, U, 1, 32, I}
bits!{__m256, u128x2, U, 1, 32, U}
bits!{__m256, u16x16, U, 1, 32, U}
bits!{__m256, u32x8, U, 1, 32, U}
bits!{__m256, u64x4, U, 1, 32, U}
bits!{__m256, u8x32, U, 1, 32, U}
bits!{__m256d, f32x8, U, 1, 32, F}
bits!{__m256d, f64x4, U, 1, 32, F}
bits!{__m256d, i128x2, U, 1, 32, I}
bits!{__m256d, i16x16, U, 1, 32, I}
bits!{__m256d, i32x8, U, 1, 32, I}
bits!{__m256d, i64x4, U, 1, 32, I}
bits!{__m256d, i8x32, U, 1, 32, I}
bits!{__m256d, u128x2, U, 1, 32, U}
bits!{__m256d, u16x16, U, 1, 32, U}
bits!{__m256d, u32x8, U, 1, 32, U}
bits!{__m256d, u64x4, U, 1, 32, U}
bits!{__m256d, u8x32, U, 1, 32, U}
bits!{__m256i, f32x8, U, 1, 32, F}
bits!{__m256i, f64x4, U, 1, 32, F}
bits!{__m256i, i128x2, U, 1, 32, I}
bits!{__m256i, i16x16, U, 1, 32, I}
bits!{__m256i, i32x8, U, 1, 32, I}
bits!{__m256i, i64x4, U, 1, 32, I}
bits!{__m256i, i8x32, U, 1, 32, I}
bits!{__m256i, u128x2, U, 1, 32, U}
bits!{__m256i, u16x16, U, 1, 32, U}
bits!{__m256i, u32x8, U, 1, 32, U}
bits!{__m256i, u64x4, U, 1, 32, U}
bits!{__m256i, u8x32, U, 1, 32, U}
bits!{f32x16, f64x8, F, 4, 16, F}
bits!{f32x16, i128x4, F, 4, 16, I}
bits!{f32x16, i16x32, F, 4, 16, I}
bits!{f32x16, i32x16, F, 4, 16, I}
bits!{f32x16, i64x8, F, 4, 16, I}
bits!{f32x16, i8x64, F, 4, 16, I}
bits!{f32x16, u128x4, F, 4, 16, U}
bits!{f32x16, u16x32, F, 4, 16, U}
bits!{f32x16, u32x16, F, 4, 16, U}
bits!{f32x16, u64x8, F, 4, 16, U}
bits!{f32x16, u8x64, F, 4, 16, U}
bits!{f32x2, i16x4, F, 4, 2, I}
bits!{f32x2, i32x2, F, 4, 2, I}
bits!{f32x2, i8x8, F, 4, 2, I}
bits!{f32x2, u16x4, F, 4, 2, U}
bits!{f32x2, u32x2, F, 4, 2, U}
bits!{f32x2, u8x8, F, 4, 2, U}
bits!{f32x4, __m128, F, 4, 4, U}
bits!{f32x4, __m128d, F, 4, 4, U}
bits!{f32x4, __m128i, F, 4, 4, U}
bits!{f32x4, f64x2, F, 4, 4, F}
bits!{f32x4, i128x1, F, 4, 4, I}
bits!{f32x4, i16x8, F, 4, 4, I}
bits!{f32x4, i32x4, F, 4, 4, I}
bits!{f32x4, i64x2, F, 4, 4, I}
bits!{f32x4, i8x16, F, 4, 4, I}
bits!{f32x4, u128x1, F, 4, 4, U}
bits!{f32x4, u16x8, F, 4, 4, U}
bits!{f32x4, u32x4, F, 4, 4, U}
bits!{f32x4, u64x2, F, 4, 4, U}
bits!{f32x4, u8x16, F, 4, 4, U}
bits!{f32x8, __m256, F, 4, 8, U}
bits!{f32x8, __m256d, F, 4, 8, U}
bits!{f32x8, __m256i, F, 4, 8, U}
bits!{f32x8, f64x4, F, 4, 8, F}
bits!{f32x8, i128x2, F, 4, 8, I}
bits!{f32x8, i16x16, F, 4, 8, I}
bits!{f32x8, i32x8, F, 4, 8, I}
bits!{f32x8, i64x4, F, 4, 8, I}
bits!{f32x8, i8x32, F, 4, 8, I}
bits!{f32x8, u128x2, F, 4, 8, U}
bits!{f32x8, u16x16, F, 4, 8, U}
bits!{f32x8, u32x8, F, 4, 8, U}
bits!{f32x8, u64x4, F, 4, 8, U}
bits!{f32x8, u8x32, F, 4, 8, U}
bits!{f64x2, __m128, F, 8, 2, U}
bits!{f64x2, __m128d, F, 8, 2, U}
bits!{f64x2, __m128i, F, 8, 2, U}
bits!{f64x2, f32x4, F, 8, 2, F}
bits!{f64x2, i128x1, F, 8, 2, I}
bits!{f64x2, i16x8, F, 8, 2, I}
bits!{f64x2, i32x4, F, 8, 2, I}
bits!{f64x2, i64x2, F, 8, 2, I}
bits!{f64x2, i8x16, F, 8, 2, I}
bits!{f64x2, u128x1, F, 8, 2, U}
bits!{f64x2, u16x8, F, 8, 2, U}
bits!{f64x2, u32x4, F, 8, 2, U}
bits!{f64x2, u64x2, F, 8, 2, U}
bits!{f64x2, u8x16, F, 8, 2, U}
bits!{f64x4, __m256, F, 8, 4, U}
bits!{f64x4, __m256d, F, 8, 4, U}
bits!{f64x4, __m256i, F, 8, 4, U}
bits!{f64x4, f32x8, F, 8, 4, F}
bits!{f64x4, i128x2, F, 8, 4, I}
bits!{f64x4, i16x16, F, 8, 4, I}
bits!{f64x4, i32x8, F, 8, 4, I}
bits!{f64x4, i64x4, F, 8, 4, I}
bits!{f64x4, i8x32, F, 8, 4, I}
bits!{f64x4, u128x2, F, 8, 4, U}
bits!{f64x4, u16x16, F, 8, 4, U}
bits!{f64x4, u32x8, F, 8, 4, U}
bits!{f64x4, u64x4, F, 8, 4, U}
bits!{f64x4, u8x32, F, 8, 4, U}
bits!{f64x8, f32x16, F, 8, 8, F}
bits!{f64x8, i128x4, F, 8, 8, I}
bits!{f64x8, i16x32, F, 8, 8, I}
bits!{f64x8, i32x16, F, 8, 8, I}
bits!{f64x8, i64x8, F, 8, 8, I}
bits!{f64x8, i8x64, F, 8, 8, I}
bits!{f64x8, u128x4, F, 8, 8, U}
bits!{f64x8, u16x32, F, 8, 8, U}
bits!{f64x8, u32x16, F, 8, 8, U}
bits!{f64x8, u64x8, F, 8, 8, U}
bits!{f64x8, u8x64, F, 8, 8, U}
bits!{i128x1, __m128, I, 16, 1, U}
bits!{i128x1, __m128d, I, 16, 1, U}
bits!{i128x1, __m128i, I, 16, 1, U}
bits!{i128x1, f32x4, I, 16, 1, F}
bits!{i128x1, f64x2, I, 16, 1, F}
bits!{i128x1, i16x8, I, 16, 1, I}
bits!{i128x1, i32x4, I, 16, 1, I}
bits!{i128x1, i64x2, I, 16, 1, I}
bits!{i128x1, i8x16, I, 16, 1, I}
bits!{i128x1, u128x1, I, 16, 1, U}
bits!{i128x1, u16x8, I, 16, 1, U}
bits!{i128x1, u32x4, I, 16, 1, U}
bits!{i128x1, u64x2, I, 16, 1, U}
bits!{i128x1, u8x16, I, 16, 1, U}
bits!{i128x2, __m256, I, 16, 2, U}
bits!{i128x2, __m256d, I, 16, 2, U}
bits!{i128x2, __m256i, I, 16, 2, U}
bits!{i128x2, f32x8, I, 16, 2, F}
bits!{i128x2, f64x4, I, 16, 2, F}
bits!{i128x2, i16x16, I, 16, 2, I}
bits!{i128x2, i32x8, I, 16, 2, I}
bits!{i128x2, i64x4, I, 16, 2, I}
bits!{i128x2, i8x32, I, 16, 2, I}
bits!{i128x2, u128x2, I, 16, 2, U}
bits!{i128x2, u16x16, I, 16, 2, U}
bits!{i128x2, u32x8, I, 16, 2, U}
bits!{i128x2, u64x4, I, 16, 2, U}
bits!{i128x2, u8x32, I, 16, 2, U}
bits!{i128x4, f32x16, I, 16, 4, F}
bits!{i128x4, f64x8, I, 16, 4, F}
bits!{i128x4, i16x32, I, 16, 4, I}
bits!{i128x4, i32x16, I, 16, 4, I}
bits!{i128x4, i64x8, I, 16, 4, I}
bits!{i128x4, i8x64, I, 16, 4, I}
bits!{i128x4, u128x4, I, 16, 4, U}
bits!{i128x4, u16x32, I, 16, 4, U}
bits!{i128x4, u32x16, I, 16, 4, U}
bits!{i128x4, u64x8, I, 16, 4, U}
bits!{i128x4, u8x64, I, 16, 4, U}
bits!{i16x16, __m256, I, 2, 16, U}
bits!{i16x16, __m256d, I, 2, 16, U}
bits!{i16x16, __m256i, I, 2, 16, U}
bits!{i16x16, f32x8, I, 2, 16, F}
bits!{i16x16, f64x4, I, 2, 16, F}
bits!{i16x16, i128x2, I, 2, 16, I}
bits!{i16x16, i32x8, I, 2, 16, I}
bits!{i16x16, i64x4, I, 2, 16, I}
bits!{i16x16, i8x32, I, 2, 16, I}
bits!{i16x16, u128x2, I, 2, 16, U}
bits!{i16x16, u16x16, I, 2, 16, U}
bits!{i16x16, u32x8, I, 2, 16, U}
bits!{i16x16, u64x4, I, 2, 16, U}
bits!{i16x16, u8x32, I, 2, 16, U}
bits!{i16x2, i8x4, I, 2, 2, I}
bits!{i16x2, u16x2, I, 2, 2, U}
bits!{i16x2, u8x4, I, 2, 2, U}
bits!{i16x32, f32x16, I, 2, 32, F}
bits!{i16x32, f64x8, I, 2, 32, F}
bits!{i16x32, i128x4, I, 2, 32, I}
bits!{i16x32, i32x16, I, 2, 32, I}
bits!{i16x32, i64x8, I, 2, 32, I}
bits!{i16x32, i8x64, I, 2, 32, I}
bits!{i16x32, u128x4, I, 2, 32, U}
bits!{i16x32, u16x32, I, 2, 32, U}
bits!{i16x32, u32x16, I, 2, 32, U}
bits!{i16x32, u64x8, I, 2, 32, U}
bits!{i16x32, u8x64, I, 2, 32, U}
bits!{i16x4, f32x2, I, 2, 4, F}
bits!{i16x4, i32x2, I, 2, 4, I}
bits!{i16x4, i8x8, I, 2, 4, I}
bits!{i16x4, u16x4, I, 2, 4, U}
bits!{i16x4, u32x2, I, 2, 4, U}
bits!{i16x4, u8x8, I, 2, 4, U}
bits!{i16x8, __m128, I, 2, 8, U}
bits!{i16x8, __m128d, I, 2, 8, U}
bits!{i16x8, __m128i, I, 2, 8, U}
bits!{i16x8, f32x4, I, 2, 8, F}
bits!{i16x8, f64x2, I, 2, 8, F}
bits!{i16x8, i128x1, I, 2, 8, I}
bits!{i16x8, i32x4, I, 2, 8, I}
bits!{i16x8, i64x2, I, 2, 8, I}
bits!{i16x8, i8x16, I, 2, 8, I}
bits!{i16x8, u128x1, I, 2, 8, U}
bits!{i16x8, u16x8, I, 2, 8, U}
bits!{i16x8, u32x4, I, 2, 8, U}
bits!{i16x8, u64x2, I, 2, 8, U}
bits!{i16x8, u8x16, I, 2, 8, U}
bits!{i32x16, f32x16, I, 4, 16, F}
bits!{i32x16, f64x8, I, 4, 16, F}
bits!{i32x16, i128x4, I, 4, 16, I}
bits!{i32x16, i16x32, I, 4, 16, I}
bits!{i32x16, i64x8, I, 4, 16, I}
bits!{i32x16, i8x64, I, 4, 16, I}
bits!{i32x16, u128x4, I, 4, 16, U}
bits!{i32x16, u16x32, I, 4, 16, U}
bits!{i32x16, u32x16, I, 4, 16, U}
bits!{i32x16, u64x8, I, 4, 16, U}
bits!{i32x16, u8x64, I, 4, 16, U}
bits!{i32x2, f32x2, I, 4, 2, F}
bits!{i32x2, i16x4, I, 4, 2, I}
bits!{i32x2, i8x8, I, 4, 2, I}
bits!{i32x2, u16x4, I, 4, 2, U}
bits!{i32x2, u32x2, I, 4, 2, U}
bits!{i32x2, u8x8, I, 4, 2, U}
bits!{i32x4, __m128, I, 4, 4, U}
bits!{i32x4, __m128d, I, 4, 4, U}
bits!{i32x4, __m128i, I, 4, 4, U}
bits!{i32x4, f32x4, I, 4, 4, F}
bits!{i32x4, f64x2, I, 4, 4, F}
bits!{i32x4, i128x1, I, 4, 4, I}
bits!{i32x4, i16x8, I, 4, 4, I}
bits!{i32x4, i64x2, I, 4, 4, I}
bits!{i32x4, i8x16, I, 4, 4, I}
bits!{i32x4, u128x1, I, 4, 4, U}
bits!{i32x4, u16x8, I, 4, 4, U}
bits!{i32x4, u32x4, I, 4, 4, U}
bits!{i32x4, u64x2, I, 4, 4, U}
bits!{i32x4, u8x16, I, 4, 4, U}
bits!{i32x8, __m256, I, 4, 8, U}
bits!{i32x8, __m256d, I, 4, 8, U}
bits!{i32x8, __m256i, I, 4, 8, U}
bits!{i32x8, f32x8, I, 4, 8, F}
bits!{i32x8, f64x4, I, 4, 8, F}
bits!{i32x8, i128x2, I, 4, 8, I}
bits!{i32x8, i16x16, I, 4, 8, I}
bits!{i32x8, i64x4, I, 4, 8, I}
bits!{i32x8, i8x32, I, 4, 8, I}
bits!{i32x8, u128x2, I, 4, 8, U}
bits!{i32x8, u16x16, I, 4, 8, U}
bits!{i32x8, u32x8, I, 4, 8, U}
bits!{i32x8, u64x4, I, 4, 8, U}
bits!{i32x8, u8x32, I, 4, 8, U}
bits!{i64x2, __m128, I, 8, 2, U}
bits!{i64x2, __m128d, I, 8, 2, U}
bits!{i64x2, __m128i, I, 8, 2, U}
bits!{i64x2, f32x4, I, 8, 2, F}
bits!{i64x2, f64x2, I, 8, 2, F}
bits!{i64x2, i128x1, I, 8, 2, I}
bits!{i64x2, i16x8, I, 8, 2, I}
bits!{i64x2, i32x4, I, 8, 2, I}
bits!{i64x2, i8x16, I, 8, 2, I}
bits!{i64x2, u128x1, I, 8, 2, U}
bits!{i64x2, u16x8, I, 8, 2, U}
bits!{i64x2, u32x4, I, 8, 2, U}
bits!{i64x2, u64x2, I, 8, 2, U}
bits!{i64x2, u8x16, I, 8, 2, U}
bits!{i64x4, __m256, I, 8, 4, U}
bits!{i64x4, __m256d, I, 8, 4, U}
bits!{i64x4, __m256i, I, 8, 4, U}
bits!{i64x4, f32x8, I, 8, 4, F}
bits!{i64x4, f64x4, I, 8, 4, F}
bits!{i64x4, i128x2, I, 8, 4, I}
bits!{i64x4, i16x16, I, 8, 4, I}
bits!{i64x4, i32x8, I, 8, 4, I}
bits!{i64x4, i8x32, I, 8, 4, I}
bits!{i64x4, u128x2, I, 8, 4, U}
bits!{i64x4, u16x16, I, 8, 4, U}
bits!{i64x4, u32x8, I, 8, 4, U}
bits!{i64x4, u64x4, I, 8, 4, U}
bits!{i64x4, u8x32, I, 8, 4, U}
bits!{i64x8, f32x16, I, 8, 8, F}
bits!{i64x8, f64x8, I, 8, 8, F}
bits!{i64x8, i128x4, I, 8, 8, I}
bits!{i64x8, i16x32, I, 8, 8, I}
bits!{i64x8, i32x16, I, 8, 8, I}
bits!{i64x8, i8x64, I, 8, 8, I}
bits!{i64x8, u128x4, I, 8, 8, U}
bits!{i64x8, u16x32, I, 8, 8, U}
bits!{i64x8, u32x16, I, 8, 8, U}
bits!{i64x8, u64x8, I, 8, 8, U}
bits!{i64x8, u8x64, I, 8, 8, U}
bits!{i8x16, __m128, I, 1, 16, U}
bits!{i8x16, __m128d, I, 1, 16, U}
bits!{i8x16, __m128i, I, 1, 16, U}
bits!{i8x16, f32x4, I, 1, 16, F}
bits!{i8x16, f64x2, I, 1, 16, F}
bits!{i8x16, i128x1, I, 1, 16, I}
bits!{i8x16, i16x8, I, 1, 16, I}
bits!{i8x16, i32x4, I, 1, 16, I}
bits!{i8x16, i64x2, I, 1, 16, I}
bits!{i8x16, u128x1, I, 1, 16, U}
bits!{i8x16, u16x8, I, 1, 16, U}
bits!{i8x16, u32x4, I, 1, 16, U}
bits!{i8x16, u64x2, I, 1, 16, U}
bits!{i8x16, u8x16, I, 1, 16, U}
bits!{i8x2, u8x2, I, 1, 2, U}
bits!{i8x32, __m256, I, 1, 32, U}
bits!{i8x32, __m256d, I, 1, 32, U}
bits!{i8x32, __m256i, I, 1, 32, U}
bits!{i8x32, f32x8, I, 1, 32, F}
bits!{i8x32, f64x4, I, 1, 32, F}
bits!{i8x32, i128x2, I, 1, 32, I}
bits!{i8x32, i16x16, I, 1, 32, I}
bits!{i8x32, i32x8, I, 1, 32, I}
bits!{i8x32, i64x4, I, 1, 32, I}
bits!{i8x32, u128x2, I, 1, 32, U}
bits!{i8x32, u16x16, I, 1, 32, U}
bits!{i8x32, u32x8, I, 1, 32, U}
bits!{i8x32, u64x4, I, 1, 32, U}
bits!{i8x32, u8x32, I, 1, 32, U}
bits!{i8x4, i16x2, I, 1, 4, I}
bits!{i8x4, u16x2, I, 1, 4, U}
bits!{i8x4, u8x4, I, 1, 4, U}
bits!{i8x64, f32x16, I, 1, 64, F}
bits!{i8x64, f64x8, I, 1, 64, F}
bits!{i8x64, i128x4, I, 1, 64, I}
bits!{i8x64, i16x32, I, 1, 64, I}
bits!{i8x64, i32x16, I, 1, 64, I}
bits!{i8x64, i64x8, I, 1, 64, I}
bits!{i8x64, u128x4, I, 1, 64, U}
bits!{i8x64, u16x32, I, 1, 64, U}
bits!{i8x64, u32x16, I, 1, 64, U}
bits!{i8x64, u64x8, I, 1, 64, U}
bits!{i8x64, u8x64, I, 1, 64, U}
bits!{i8x8, f32x2, I, 1, 8, F}
bits!{i8x8, i16x4, I, 1, 8, I}
bits!{i8x8, i32x2, I, 1, 8, I}
bits!{i8x8, u16x4, I, 1, 8, U}
bits!{i8x8, u32x2, I, 1, 8, U}
bits!{i8x8, u8x8, I, 1, 8, U}
bits!{m128x1, __m128, M, 16, 1, U}
bits!{m128x1, __m128d, M, 16, 1, U}
bits!{m128x1, __m128i, M, 16, 1, U}
bits!{m128x1, f32x4, M, 16, 1, F}
bits!{m128x1, f64x2, M, 16, 1, F}
bits!{m128x1, i128x1, M, 16, 1, I}
bits!{m128x1, i16x8, M, 16, 1, I}
bits!{m128x1, i32x4, M, 16, 1, I}
bits!{m128x1, i64x2, M, 16, 1, I}
bits!{m128x1, i8x16, M, 16, 1, I}
bits!{m128x1, m16x8, M, 16, 1, M}
bits!{m128x1, m32x4, M, 16, 1, M}
bits!{m128x1, m64x2, M, 16, 1, M}
bits!{m128x1, m8x16, M, 16, 1, M}
bits!{m128x1, u128x1, M, 16, 1, U}
bits!{m128x1, u16x8, M, 16, 1, U}
bits!{m128x1, u32x4, M, 16, 1, U}
bits!{m128x1, u64x2, M, 16, 1, U}
bits!{m128x1, u8x16, M, 16, 1, U}
bits!{m128x2, __m256, M, 16, 2, U}
bits!{m128x2, __m256d, M, 16, 2, U}
bits!{m128x2, __m256i, M, 16, 2, U}
bits!{m128x2, f32x8, M, 16, 2, F}
bits!{m128x2, f64x4, M, 16, 2, F}
bits!{m128x2, i128x2, M, 16, 2, I}
bits!{m128x2, i16x16, M, 16, 2, I}
bits!{m128x2, i32x8, M, 16, 2, I}
bits!{m128x2, i64x4, M, 16, 2, I}
bits!{m128x2, i8x32, M, 16, 2, I}
bits!{m128x2, m16x16, M, 16, 2, M}
bits!{m128x2, m32x8, M, 16, 2, M}
bits!{m128x2, m64x4, M, 16, 2, M}
bits!{m128x2, m8x32, M, 16, 2, M}
bits!{m128x2, u128x2, M, 16, 2, U}
bits!{m128x2, u16x16, M, 16, 2, U}
bits!{m128x2, u32x8, M, 16, 2, U}
bits!{m128x2, u64x4, M, 16, 2, U}
bits!{m128x2, u8x32, M, 16, 2, U}
bits!{m128x4, f32x16, M, 16, 4, F}
bits!{m128x4, f64x8, M, 16, 4, F}
bits!{m128x4, i128x4, M, 16, 4, I}
bits!{m128x4, i16x32, M, 16, 4, I}
bits!{m128x4, i32x16, M, 16, 4, I}
bits!{m128x4, i64x8, M, 16, 4, I}
bits!{m128x4, i8x64, M, 16, 4, I}
bits!{m128x4, m16x32, M, 16, 4, M}
bits!{m128x4, m32x16, M, 16, 4, M}
bits!{m128x4, m64x8, M, 16, 4, M}
bits!{m128x4, m8x64, M, 16, 4, M}
bits!{m128x4, u128x4, M, 16, 4, U}
bits!{m128x4, u16x32, M, 16, 4, U}
bits!{m128x4, u32x16, M, 16, 4, U}
bits!{m128x4, u64x8, M, 16, 4, U}
bits!{m128x4, u8x64, M, 16, 4, U}
bits!{m16x16, __m256, M, 2, 16, U}
bits!{m16x16, __m256d, M, 2, 16, U}
bits!{m16x16, __m256i, M, 2, 16, U}
bits!{m16x16, f32x8, M, 2, 16, F}
bits!{m16x16, f64x4, M, 2, 16, F}
bits!{m16x16, i128x2, M, 2, 16, I}
bits!{m16x16, i16x16, M, 2, 16, I}
bits!{m16x16, i32x8, M, 2, 16, I}
bits!{m16x16, i64x4, M, 2, 16, I}
bits!{m16x16, i8x32, M, 2, 16, I}
bits!{m16x16, m8x32, M, 2, 16, M}
bits!{m16x16, u128x2, M, 2, 16, U}
bits!{m16x16, u16x16, M, 2, 16, U}
bits!{m16x16, u32x8, M, 2, 16, U}
bits!{m16x16, u64x4, M, 2, 16, U}
bits!{m16x16, u8x32, M, 2, 16, U}
bits!{m16x2, i16x2, M, 2, 2, I}
bits!{m16x2, i8x4, M, 2, 2, I}
bits!{m16x2, m8x4, M, 2, 2, M}
bits!{m16x2, u16x2, M, 2, 2, U}
bits!{m16x2, u8x4, M, 2, 2, U}
bits!{m16x32, f32x16, M, 2, 32, F}
bits!{m16x32, f64x8, M, 2, 32, F}
bits!{m16x32, i128x4, M, 2, 32, I}
bits!{m16x32, i16x32, M, 2, 32, I}
bits!{m16x32, i32x16, M, 2, 32, I}
bits!{m16x32, i64x8, M, 2, 32, I}
bits!{m16x32, i8x64, M, 2, 32, I}
bits!{m16x32, m8x64, M, 2, 32, M}
bits!{m16x32, u128x4, M, 2, 32, U}
bits!{m16x32, u16x32, M, 2, 32, U}
bits!{m16x32, u32x16, M, 2, 32, U}
bits!{m16x32, u64x8, M, 2, 32, U}
bits!{m16x32, u8x64, M, 2, 32, U}
bits!{m16x4, f32x2, M, 2, 4, F}
bits!{m16x4, i16x4, M, 2, 4, I}
bits!{m16x4, i32x2, M, 2, 4, I}
bits!{m16x4, i8x8, M, 2, 4, I}
bits!{m16x4, m8x8, M, 2, 4, M}
bits!{m16x4, u16x4, M, 2, 4, U}
bits!{m16x4, u32x2, M, 2, 4, U}
bits!{m16x4, u8x8, M, 2, 4, U}
bits!{m16x8, __m128, M, 2, 8, U}
bits!{m16x8, __m128d, M, 2, 8, U}
bits!{m16x8, __m128i, M, 2, 8, U}
bits!{m16x8, f32x4, M, 2, 8, F}
bits!{m16x8, f64x2, M, 2, 8, F}
bits!{m16x8, i128x1, M, 2, 8, I}
bits!{m16x8, i16x8, M, 2, 8, I}
bits!{m16x8, i32x4, M, 2, 8, I}
bits!{m16x8, i64x2, M, 2, 8, I}
bits!{m16x8, i8x16, M, 2, 8, I}
bits!{m16x8, m8x16, M, 2, 8, M}
bits!{m16x8, u128x1, M, 2, 8, U}
bits!{m16x8, u16x8, M, 2, 8, U}
bits!{m16x8, u32x4, M, 2, 8, U}
bits!{m16x8, u64x2, M, 2, 8, U}
bits!{m16x8, u8x16, M, 2, 8, U}
bits!{m32x16, f32x16, M, 4, 16, F}
bits!{m32x16, f64x8, M, 4, 16, F}
bits!{m32x16, i128x4, M, 4, 16, I}
bits!{m32x16, i16x32, M, 4, 16, I}
bits!{m32x16, i32x16, M, 4, 16, I}
bits!{m32x16, i64x8, M, 4, 16, I}
bits!{m32x16, i8x64, M, 4, 16, I}
bits!{m32x16, m16x32, M, 4, 16, M}
bits!{m32x16, m8x64, M, 4, 16, M}
bits!{m32x16, u128x4, M, 4, 16, U}
bits!{m32x16, u16x32, M, 4, 16, U}
bits!{m32x16, u32x16, M, 4, 16, U}
bits!{m32x16, u64x8, M, 4, 16, U}
bits!{m32x16, u8x64, M, 4, 16, U}
bits!{m32x2, f32x2, M, 4, 2, F}
bits!{m32x2, i16x4, M, 4, 2, I}
bits!{m32x2, i32x2, M, 4, 2, I}
bits!{m32x2, i8x8, M, 4, 2, I}
bits!{m32x2, m16x4, M, 4, 2, M}
bits!{m32x2, m8x8, M, 4, 2, M}
bits!{m32x2, u16x4, M, 4, 2, U}
bits!{m32x2, u32x2, M, 4, 2, U}
bits!{m32x2, u8x8, M, 4, 2, U}
bits!{m32x4, __m128, M, 4, 4, U}
bits!{m32x4, __m128d, M, 4, 4, U}
bits!{m32x4, __m128i, M, 4, 4, U}
bits!{m32x4, f32x4, M, 4, 4, F}
bits!{m32x4, f64x2, M, 4, 4, F}
bits!{m32x4, i128x1, M, 4, 4, I}
bits!{m32x4, i16x8, M, 4, 4, I}
bits!{m32x4, i32x4, M, 4, 4, I}
bits!{m32x4, i64x2, M, 4, 4, I}
bits!{m32x4, i8x16, M, 4, 4, I}
bits!{m32x4, m16x8, M, 4, 4, M}
bits!{m32x4, m8x16, M, 4, 4, M}
bits!{m32x4, u128x1, M, 4, 4, U}
bits!{m32x4, u16x8, M, 4, 4, U}
bits!{m32x4, u32x4, M, 4, 4, U}
bits!{m32x4, u64x2, M, 4, 4, U}
bits!{m32x4, u8x16, M, 4, 4, U}
bits!{m32x8, __m256, M, 4, 8, U}
bits!{m32x8, __m256d, M, 4, 8, U}
bits!{m32x8, __m256i, M, 4, 8, U}
bits!{m32x8, f32x8, M, 4, 8, F}
bits!{m32x8, f64x4, M, 4, 8, F}
bits!{m32x8, i128x2, M, 4, 8, I}
bits!{m32x8, i16x16, M, 4, 8, I}
bits!{m32x8, i32x8, M, 4, 8, I}
bits!{m32x8, i64x4, M, 4, 8, I}
bits!{m32x8, i8x32, M, 4, 8, I}
bits!{m32x8, m16x16, M, 4, 8, M}
bits!{m32x8, m8x32, M, 4, 8, M}
bits!{m32x8, u128x2, M, 4, 8, U}
bits!{m32x8, u16x16, M, 4, 8, U}
bits!{m32x8, u32x8, M, 4, 8, U}
bits!{m32x8, u64x4, M, 4, 8, U}
bits!{m32x8, u8x32, M, 4, 8, U}
bits!{m64x2, __m128, M, 8, 2, U}
bits!{m64x2, __m128d, M, 8, 2, U}
bits!{m64x2, __m128i, M, 8, 2, U}
bits!{m64x2, f32x4, M, 8, 2, F}
bits!{m64x2, f64x2, M, 8, 2, F}
bits!{m64x2, i128x1, M, 8, 2, I}
bits!{m64x2, i16x8, M, 8, 2, I}
bits!{m64x2, i32x4, M, 8, 2, I}
bits!{m64x2, i64x2, M, 8, 2, I}
bits!{m64x2, i8x16, M, 8, 2, I}
bits!{m64x2, m16x8, M, 8, 2, M}
bits!{m64x2, m32x4, M, 8, 2, M}
bits!{m64x2, m8x16, M, 8, 2, M}
bits!{m64x2, u128x1, M, 8, 2, U}
bits!{m64x2, u16x8, M, 8, 2, U}
bits!{m64x2, u32x4, M, 8, 2, U}
bits!{m64x2, u64x2, M, 8, 2, U}
bits!{m64x2, u8x16, M, 8, 2, U}
bits!{m64x4, __m256, M, 8, 4, U}
bits!{m64x4, __m256d, M, 8, 4, U}
bits!{m64x4, __m256i, M, 8, 4, U}
bits!{m64x4, f32x8, M, 8, 4, F}
bits!{m64x4, f64x4, M, 8, 4, F}
bits!{m64x4, i128x2, M, 8, 4, I}
bits!{m64x4, i16x16, M, 8, 4, I}
bits!{m64x4, i32x8, M, 8, 4, I}
bits!{m64x4, i64x4, M, 8, 4, I}
bits!{m64x4, i8x32, M, 8, 4, I}
bits!{m64x4, m16x16, M, 8, 4, M}
bits!{m64x4, m32x8, M, 8, 4, M}
bits!{m64x4, m8x32, M, 8, 4, M}
bits!{m64x4, u128x2, M, 8, 4, U}
bits!{m64x4, u16x16, M, 8, 4, U}
bits!{m64x4, u32x8, M, 8, 4, U}
bits!{m64x4, u64x4, M, 8, 4, U}
bits!{m64x4, u8x32, M, 8, 4, U}
bits!{m64x8, f32x16, M, 8, 8, F}
bits!{m64x8, f64x8, M, 8, 8, F}
bits!{m64x8, i128x4, M, 8, 8, I}
bits!{m64x8, i16x32, M, 8, 8, I}
bits!{m64x8, i32x16, M, 8, 8, I}
bits!{m64x8, i64x8, M, 8, 8, I}
bits!{m64x8, i8x64, M, 8, 8, I}
bits!{m64x8, m16x32, M, 8, 8, M}
bits!{m64x8, m32x16, M, 8, 8, M}
bits!{m64x8, m8x64, M, 8, 8, M}
bits!{m64x8, u128x4, M, 8, 8, U}
bits!{m64x8, u16x32, M, 8, 8, U}
bits!{m64x8, u32x16, M, 8, 8, U}
bits!{m64x8, u64x8, M, 8, 8, U}
bits!{m64x8, u8x64, M, 8, 8, U}
bits!{m8x16, __m128, M, 1, 16, U}
bits!{m8x16, __m128d, M, 1, 16, U}
bits!{m8x16, __m128i, M, 1, 16, U}
bits!{m8x16, f32x4, M, 1, 16, F}
bits!{m8x16, f64x2, M, 1, 16, F}
bits!{m8x16, i128x1, M, 1, 16, I}
bits!{m8x16, i16x8, M, 1, 16, I}
bits!{m8x16, i32x4, M, 1, 16, I}
bits!{m8x16, i64x2, M, 1, 16, I}
bits!{m8x16, i8x16, M, 1, 16, I}
bits!{m8x16, u128x1, M, 1, 16, U}
bits!{m8x16, u16x8, M, 1, 16, U}
bits!{m8x16, u32x4, M, 1, 16, U}
bits!{m8x16, u64x2, M, 1, 16, U}
bits!{m8x16, u8x16, M, 1, 16, U}
bits!{m8x2, i8x2, M, 1, 2, I}
bits!{m8x2, u8x2, M, 1, 2, U}
bits!{m8x32, __m256, M, 1, 32, U}
bits!{m8x32, __m256d, M, 1, 32, U}
bits!{m8x32, __m256i, M, 1, 32, U}
bits!{m8x32, f32x8, M, 1, 32, F}
bits!{m8x32, f64x4, M, 1, 32, F}
bits!{m8x32, i128x2, M, 1, 32, I}
bits!{m8x32, i16x16, M, 1, 32, I}
bits!{m8x32, i32x8, M, 1, 32, I}
bits!{m8x32, i64x4, M, 1, 32, I}
bits!{m8x32, i8x32, M, 1, 32, I}
bits!{m8x32, u128x2, M, 1, 32, U}
bits!{m8x32, u16x16, M, 1, 32, U}
bits!{m8x32, u32x8, M, 1, 32, U}
bits!{m8x32, u64x4, M, 1, 32, U}
bits!{m8x32, u8x32, M, 1, 32, U}
bits!{m8x4, i16x2, M, 1, 4, I}
bits!{m8x4, i8x4, M, 1, 4, I}
bits!{m8x4, u16x2, M, 1, 4, U}
bits!{m8x4, u8x4, M, 1, 4, U}
bits!{m8x64, f32x16, M, 1, 64, F}
bits!{m8x64, f64x8, M, 1, 64, F}
bits!{m8x64, i128x4, M, 1, 64, I}
bits!{m8x64, i16x32, M, 1, 64, I}
bits!{m8x64, i32x16, M, 1, 64, I}
bits!{m8x64, i64x8, M, 1, 64, I}
bits!{m8x64, i8x64, M, 1, 64, I}
bits!{m8x64, u128x4, M, 1, 64, U}
bits!{m8x64, u16x32, M, 1, 64, U}
bits!{m8x64, u32x16, M, 1, 64, U}
bits!{m8x64, u64x8, M, 1, 64, U}
bits!{m8x64, u8x64, M, 1, 64, U}
bits!{m8x8, f32x2, M, 1, 8, F}
bits!{m8x8, i16x4, M, 1, 8, I}
bits!{m8x8, i32x2, M, 1, 8, I}
bits!{m8x8, i8x8, M, 1, 8, I}
bits!{m8x8, u16x4, M, 1, 8, U}
bits!{m8x8, u32x2, M, 1, 8, U}
bits!{m8x8, u8x8, M, 1, 8, U}
bits!{u128x1, __m128, U, 16, 1, U}
bits!{u128x1, __m128d, U, 16, 1, U}
bits!{u128x1, __m128i, U, 16, 1, U}
bits!{u128x1, f32x4, U, 16, 1, F}
bits!{u128x1, f64x2, U, 16, 1, F}
bits!{u128x1, i128x1, U, 16, 1, I}
bits!{u128x1, i16x8, U, 16, 1, I}
bits!{u128x1, i32x4, U, 16, 1, I}
bits!{u128x1, i64x2, U, 16, 1, I}
bits!{u128x1, i8x16, U, 16, 1, I}
bits!{u128x1, u16x8, U, 16, 1, U}
bits!{u128x1, u32x4, U, 16, 1, U}
bits!{u128x1, u64x2, U, 16, 1, U}
bits!{u128x1, u8x16, U, 16, 1, U}
bits!{u128x2, __m256, U, 16, 2, U}
bits!{u128x2, __m256d, U, 16, 2, U}
bits!{u128x2, __m256i, U, 16, 2, U}
bits!{u128x2, f32x8, U, 16, 2, F}
bits!{u128x2, f64x4, U, 16, 2, F}
bits!{u128x2, i128x2, U, 16, 2, I}
bits!{u128x2, i16x16, U, 16, 2, I}
bits!{u128x2, i32x8, U, 16, 2, I}
bits!{u128x2, i64x4, U, 16, 2, I}
bits!{u128x2, i8x32, U, 16, 2, I}
bits!{u128x2, u16x16, U, 16, 2, U}
bits!{u128x2, u32x8, U, 16, 2, U}
bits!{u128x2, u64x4, U, 16, 2, U}
bits!{u128x2, u8x32, U, 16, 2, U}
bits!{u128x4, f32x16, U, 16, 4, F}
bits!{u128x4, f64x8, U, 16, 4, F}
bits!{u128x4, i128x4, U, 16, 4, I}
bits!{u128x4, i16x32, U, 16, 4, I}
bits!{u128x4, i32x16, U, 16, 4, I}
bits!{u128x4, i64x8, U, 16, 4, I}
bits!{u128x4, i8x64, U, 16, 4, I}
bits!{u128x4, u16x32, U, 16, 4, U}
bits!{u128x4, u32x16, U, 16, 4, U}
bits!{u128x4, u64x8, U, 16, 4, U}
bits!{u128x4, u8x64, U, 16, 4, U}
bits!{u16x16, __m256, U, 2, 16, U}
bits!{u16x16, __m256d, U, 2, 16, U}
bits!{u16x16, __m256i, U, 2, 16, U}
bits!{u16x16, f32x8, U, 2, 16, F}
bits!{u16x16, f64x4, U, 2, 16, F}
bits!{u16x16, i128x2, U, 2, 16, I}
bits!{u16x16, i16x16, U, 2, 16, I}
bits!{u16x16, i32x8, U, 2, 16, I}
bits!{u16x16, i64x4, U, 2, 16, I}
bits!{u16x16, i8x32, U, 2, 16, I}
bits!{u16x16, u128x2, U, 2, 16, U}
bits!{u16x16, u32x8, U, 2, 16, U}
bits!{u16x16, u64x4, U, 2, 16, U}
bits!{u16x16, u8x32, U, 2, 16, U}
bits!{u16x2, i16x2, U, 2, 2, I}
bits!{u16x2, i8x4, U, 2, 2, I}
bits!{u16x2, u8x4, U, 2, 2, U}
bits!{u16x32, f32x16, U, 2, 32, F}
bits!{u16x32, f64x8, U, 2, 32, F}
bits!{u16x32, i128x4, U, 2, 32, I}
bits!{u16x32, i16x32, U, 2, 32, I}
bits!{u16x32, i32x16, U, 2, 32, I}
bits!{u16x32, i64x8, U, 2, 32, I}
bits!{u16x32, i8x64, U, 2, 32, I}
bits!{u16x32, u128x4, U, 2, 32, U}
bits!{u16x32, u32x16, U, 2, 32, U}
bits!{u16x32, u64x8, U, 2, 32, U}
bits!{u16x32, u8x64, U, 2, 32, U}
bits!{u16x4, f32x2, U, 2, 4, F}
bits!{u16x4, i16x4, U, 2, 4, I}
bits!{u16x4, i32x2, U, 2, 4, I}
bits!{u16x4, i8x8, U, 2, 4, I}
bits!{u16x4, u32x2, U, 2, 4, U}
bits!{u16x4, u8x8, U, 2, 4, U}
bits!{u16x8, __m128, U, 2, 8, U}
bits!{u16x8, __m128d, U, 2, 8, U}
bits!{u16x8, __m128i, U, 2, 8, U}
bits!{u16x8, f32x4, U, 2, 8, F}
bits!{u16x8, f64x2, U, 2, 8, F}
bits!{u16x8, i128x1, U, 2, 8, I}
bits!{u16x8, i16x8, U, 2, 8, I}
bits!{u16x8, i32x4, U, 2, 8, I}
bits!{u16x8, i64x2, U, 2, 8, I}
bits!{u16x8, i8x16, U, 2, 8, I}
bits!{u16x8, u128x1, U, 2, 8, U}
bits!{u16x8, u32x4, U, 2, 8, U}
bits!{u16x8, u64x2, U, 2, 8, U}
bits!{u16x8, u8x16, U, 2, 8, U}
bits!{u32x16, f32x16, U, 4, 16, F}
bits!{u32x16, f64x8, U, 4, 16, F}
bits!{u32x16, i128x4, U, 4, 16, I}
bits!{u32x16, i16x32, U, 4, 16, I}
bits!{u32x16, i32x16, U, 4, 16, I}
bits!{u32x16, i64x8, U, 4, 16, I}
bits!{u32x16, i8x64, U, 4, 16, I}
bits!{u32x16, u128x4, U, 4, 16, U}
bits!{u32x16, u16x32, U, 4, 16, U}
bits!{u32x16, u64x8, U, 4, 16, U}
bits!{u32x16, u8x64, U, 4, 16, U}
bits!{u32x2, f32x2, U, 4, 2, F}
bits!{u32x2, i16x4, U, 4, 2, I}
bits!{u32x2, i32x2, U, 4, 2, I}
bits!{u32x2, i8x8, U, 4, 2, I}
bits!{u32x2, u16x4, U, 4, 2, U}
bits!{u32x2, u8x8, U, 4, 2, U}
bits!{u32x4, __m128, U, 4, 4, U}
bits!{u32x4, __m128d, U, 4, 4, U}
bits!{u32x4, __m128i, U, 4, 4, U}
bits!{u32x4, f32x4, U, 4, 4, F}
bits!{u32x4, f64x2, U, 4, 4, F}
bits!{u32x4, i128x1, U, 4, 4, I}
bits!{u32x4, i16x8, U, 4, 4, I}
bits!{u32x4, i32x4, U, 4, 4, I}
bits!{u32x4, i64x2, U, 4, 4, I}
bits!{u32x4, i8x16, U, 4, 4, I}
bits!{u32x4, u128x1, U, 4, 4, U}
bits!{u32x4, u16x8, U, 4, 4, U}
bits!{u32x4, u64x2, U, 4, 4, U}
bits!{u32x4, u8x16, U, 4, 4, U}
bits!{u32x8, __m256, U, 4, 8, U}
bits!{u32x8, __m256d, U, 4, 8, U}
bits!{u32x8, __m256i, U, 4, 8, U}
bits!{u32x8, f32x8, U, 4, 8, F}
bits!{u32x8, f64x4, U, 4, 8, F}
bits!{u32x8, i128x2, U, 4, 8, I}
bits!{u32x8, i16x16, U, 4, 8, I}
bits!{u32x8, i32x8, U, 4, 8, I}
bits!{u32x8, i64x4, U, 4, 8, I}
bits!{u32x8, i8x32, U, 4, 8, I}
bits!{u32x8, u128x2, U, 4, 8, U}
bits!{u32x8, u16x16, U, 4, 8, U}
bits!{u32x8, u64x4, U, 4, 8, U}
bits!{u32x8, u8x32, U, 4, 8, U}
bits!{u64x2, __m128, U, 8, 2, U}
bits!{u64x2, __m128d, U, 8, 2, U}
bits!{u64x2, __m128i, U, 8, 2, U}
bits!{u64x2, f32x4, U, 8, 2, F}
bits!{u64x2, f64x2, U, 8, 2, F}
bits!{u64x2, i128x1, U, 8, 2, I}
bits!{u64x2, i16x8, U, 8, 2, I}
bits!{u64x2, i32x4, U, 8, 2, I}
bits!{u64x2, i64x2, U, 8, 2, I}
bits!{u64x2, i8x16, U, 8, 2, I}
bits!{u64x2, u128x1, U, 8, 2, U}
bits!{u64x2, u16x8, U, 8, 2, U}
bits!{u64x2, u32x4, U, 8, 2, U}
bits!{u64x2, u8x16, U, 8, 2, U}
bits!{u64x4, __m256, U, 8, 4, U}
bits!{u64x4, __m256d, U, 8, 4, U}
bits!{u64x4, __m256i, U, 8, 4, U}
bits!{u64x4, f32x8, U, 8, 4, F}
bits!{u64x4, f64x4, U, 8, 4, F}
bits!{u64x4, i128x2, U, 8, 4, I}
bits!{u64x4, i16x16, U, 8, 4, I}
bits!{u64x4, i32x8, U, 8, 4, I}
bits!{u64x4, i64x4, U, 8, 4, I}
bits!{u64x4, i8x32, U, 8, 4, I}
bits!{u64x4, u128x2, U, 8, 4, U}
bits!{u64x4, u16x16, U, 8, 4, U}
bits!{u64x4, u32x8, U, 8, 4, U}
bits!{u64x4, u8x32, U, 8, 4, U}
bits!{u64x8, f32x16, U, 8, 8, F}
bits!{u64x8, f64x8, U, 8, 8, F}
bits!{u64x8, i128x4, U, 8, 8, I}
bits!{u64x8, i16x32, U, 8, 8, I}
bits!{u64x8, i32x16, U, 8, 8, I}
bits!{u64x8, i64x8, U, 8, 8, I}
bits!{u64x8, i8x64, U, 8, 8, I}
bits!{u64x8, u128x4, U, 8, 8, U}
bits!{u64x8, u16x32, U, 8, 8, U}
bits!{u64x8, u32x16, U, 8, 8, U}
bits!{u64x8, u8x64, U, 8, 8, U}
bits!{u8x16, __m128, U, 1, 16, U}
bits!{u8x16, __m128d, U, 1, 16, U}
bits!{u8x16, __m128i, U, 1, 16, U}
bits!{u8x16, f32x4, U, 1, 16, F}
bits!{u8x16, f64x2, U, 1, 16, F}
bits!{u8x16, i128x1, U, 1, 16, I}
bits!{u8x16, i16x8, U, 1, 16, I}
bits!{u8x16, i32x4, U, 1, 16, I}
bits!{u8x16, i64x2, U, 1, 16, I}
bits!{u8x16, i8x16, U, 1, 16, I}
bits!{u8x16, u128x1, U, 1, 16, U}
bits!{u8x16, u16x8, U, 1, 16, U}
bits!{u8x16, u32x4, U, 1, 16, U}
bits!{u8x16, u64x2, U, 1, 16, U}
bits!{u8x2, i8x2, U, 1, 2, I}
bits!{u8x32, __m256, U, 1, 32, U}
bits!{u8x32, __m256d, U, 1, 32, U}
bits!{u8x32, __m256i, U, 1, 32, U}
bits!{u8x32, f32x8, U, 1, 32, F}
bits!{u8x32, f64x4, U, 1, 32, F}
bits!{u8x32, i128x2, U, 1, 32, I}
bits!{u8x32, i16x16, U, 1, 32, I}
bits!{u8x32, i32x8, U, 1, 32, I}
bits!{u8x32, i64x4, U, 1, 32, I}
bits!{u8x32, i8x32, U, 1, 32, I}
bits!{u8x32, u128x2, U, 1, 32, U}
bits!{u8x32, u16x16, U, 1, 32, U}
bits!{u8x32, u32x8, U, 1, 32, U}
bits!{u8x32, u64x4, U, 1, 32, U}
bits!{u8x4, i16x2, U, 1, 4, I}
bits!{u8x4, i8x4, U, 1, 4, I}
bits!{u8x4, u16x2, U, 1, 4, U}
bits!{u8x64, f32x16, U, 1, 64, F}
bits!{u8x64, f64x8, U, 1, 64, F}
bits!{u8x64, i128x4, U, 1, 64, I}
bits!{u8x64, i16x32, U, 1, 64, I}
bits!{u8x64, i32x16, U, 1, 64, I}
bits!{u8x64, i64x8, U, 1, 64, I}
bits!{u8x64, i8x64, U, 1, 64, I}
bits!{u8x64, u128x4, U, 1, 64, U}
bits!{u8x64, u16x32, U, 1, 64, U}
bits!{u8x64, u32x16, U, 1, 64, U}
bits!{u8x64, u64x8, U, 1, 64, U}
bits!{u8x8, f32x2, U, 1, 8, F}
bits!{u8x8, i16x4, U, 1, 8, I}
bits!{u8x8, i32x2, U, 1, 8, I}
bits!{u8x8, i8x8, U, 1, 8, I}
bits!{u8x8, u16x4, U, 1, 8, U}
bits!{u8x8, u32x2, U, 1, 8, U}
}
