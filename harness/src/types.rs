//! Lists of the vector types: callback!(vector, element, lanes, lane bytes, Kind, mask vector, scalar mask)
#[macro_export]
macro_rules! ints {
    ($cb:ident) => { ints!{$cb []} };
    ($cb:ident [$($x:tt)*]) => {
        $cb!{i8x2, i8, 2, 1, I, m8x2, m8 $($x)*}
        $cb!{i8x4, i8, 4, 1, I, m8x4, m8 $($x)*}
        $cb!{i8x8, i8, 8, 1, I, m8x8, m8 $($x)*}
        $cb!{i8x16, i8, 16, 1, I, m8x16, m8 $($x)*}
        $cb!{i8x32, i8, 32, 1, I, m8x32, m8 $($x)*}
        $cb!{i8x64, i8, 64, 1, I, m8x64, m8 $($x)*}
        $cb!{i16x2, i16, 2, 2, I, m16x2, m16 $($x)*}
        $cb!{i16x4, i16, 4, 2, I, m16x4, m16 $($x)*}
        $cb!{i16x8, i16, 8, 2, I, m16x8, m16 $($x)*}
        $cb!{i16x16, i16, 16, 2, I, m16x16, m16 $($x)*}
        $cb!{i16x32, i16, 32, 2, I, m16x32, m16 $($x)*}
        $cb!{i32x2, i32, 2, 4, I, m32x2, m32 $($x)*}
        $cb!{i32x4, i32, 4, 4, I, m32x4, m32 $($x)*}
        $cb!{i32x8, i32, 8, 4, I, m32x8, m32 $($x)*}
        $cb!{i32x16, i32, 16, 4, I, m32x16, m32 $($x)*}
        $cb!{i64x2, i64, 2, 8, I, m64x2, m64 $($x)*}
        $cb!{i64x4, i64, 4, 8, I, m64x4, m64 $($x)*}
        $cb!{i64x8, i64, 8, 8, I, m64x8, m64 $($x)*}
        $cb!{i128x1, i128, 1, 16, I, m128x1, m128 $($x)*}
        $cb!{i128x2, i128, 2, 16, I, m128x2, m128 $($x)*}
        $cb!{i128x4, i128, 4, 16, I, m128x4, m128 $($x)*}
        $cb!{isizex2, isize, 2, 8, I, msizex2, msize $($x)*}
        $cb!{isizex4, isize, 4, 8, I, msizex4, msize $($x)*}
        $cb!{isizex8, isize, 8, 8, I, msizex8, msize $($x)*}
        $cb!{u8x2, u8, 2, 1, U, m8x2, m8 $($x)*}
        $cb!{u8x4, u8, 4, 1, U, m8x4, m8 $($x)*}
        $cb!{u8x8, u8, 8, 1, U, m8x8, m8 $($x)*}
        $cb!{u8x16, u8, 16, 1, U, m8x16, m8 $($x)*}
        $cb!{u8x32, u8, 32, 1, U, m8x32, m8 $($x)*}
        $cb!{u8x64, u8, 64, 1, U, m8x64, m8 $($x)*}
        $cb!{u16x2, u16, 2, 2, U, m16x2, m16 $($x)*}
        $cb!{u16x4, u16, 4, 2, U, m16x4, m16 $($x)*}
        $cb!{u16x8, u16, 8, 2, U, m16x8, m16 $($x)*}
        $cb!{u16x16, u16, 16, 2, U, m16x16, m16 $($x)*}
        $cb!{u16x32, u16, 32, 2, U, m16x32, m16 $($x)*}
        $cb!{u32x2, u32, 2, 4, U, m32x2, m32 $($x)*}
        $cb!{u32x4, u32, 4, 4, U, m32x4, m32 $($x)*}
        $cb!{u32x8, u32, 8, 4, U, m32x8, m32 $($x)*}
        $cb!{u32x16, u32, 16, 4, U, m32x16, m32 $($x)*}
        $cb!{u64x2, u64, 2, 8, U, m64x2, m64 $($x)*}
        $cb!{u64x4, u64, 4, 8, U, m64x4, m64 $($x)*}
        $cb!{u64x8, u64, 8, 8, U, m64x8, m64 $($x)*}
        $cb!{u128x1, u128, 1, 16, U, m128x1, m128 $($x)*}
        $cb!{u128x2, u128, 2, 16, U, m128x2, m128 $($x)*}
        $cb!{u128x4, u128, 4, 16, U, m128x4, m128 $($x)*}
        $cb!{usizex2, usize, 2, 8, U, msizex2, msize $($x)*}
        $cb!{usizex4, usize, 4, 8, U, msizex4, msize $($x)*}
        $cb!{usizex8, usize, 8, 8, U, msizex8, msize $($x)*}
    };
}
#[macro_export]
macro_rules! sints {
    ($cb:ident) => { sints!{$cb []} };
    ($cb:ident [$($x:tt)*]) => {
        $cb!{i8x2, i8, 2, 1, I, m8x2, m8 $($x)*}
        $cb!{i8x4, i8, 4, 1, I, m8x4, m8 $($x)*}
        $cb!{i8x8, i8, 8, 1, I, m8x8, m8 $($x)*}
        $cb!{i8x16, i8, 16, 1, I, m8x16, m8 $($x)*}
        $cb!{i8x32, i8, 32, 1, I, m8x32, m8 $($x)*}
        $cb!{i8x64, i8, 64, 1, I, m8x64, m8 $($x)*}
        $cb!{i16x2, i16, 2, 2, I, m16x2, m16 $($x)*}
        $cb!{i16x4, i16, 4, 2, I, m16x4, m16 $($x)*}
        $cb!{i16x8, i16, 8, 2, I, m16x8, m16 $($x)*}
        $cb!{i16x16, i16, 16, 2, I, m16x16, m16 $($x)*}
        $cb!{i16x32, i16, 32, 2, I, m16x32, m16 $($x)*}
        $cb!{i32x2, i32, 2, 4, I, m32x2, m32 $($x)*}
        $cb!{i32x4, i32, 4, 4, I, m32x4, m32 $($x)*}
        $cb!{i32x8, i32, 8, 4, I, m32x8, m32 $($x)*}
        $cb!{i32x16, i32, 16, 4, I, m32x16, m32 $($x)*}
        $cb!{i64x2, i64, 2, 8, I, m64x2, m64 $($x)*}
        $cb!{i64x4, i64, 4, 8, I, m64x4, m64 $($x)*}
        $cb!{i64x8, i64, 8, 8, I, m64x8, m64 $($x)*}
        $cb!{i128x1, i128, 1, 16, I, m128x1, m128 $($x)*}
        $cb!{i128x2, i128, 2, 16, I, m128x2, m128 $($x)*}
        $cb!{i128x4, i128, 4, 16, I, m128x4, m128 $($x)*}
        $cb!{isizex2, isize, 2, 8, I, msizex2, msize $($x)*}
        $cb!{isizex4, isize, 4, 8, I, msizex4, msize $($x)*}
        $cb!{isizex8, isize, 8, 8, I, msizex8, msize $($x)*}
    };
}
#[macro_export]
macro_rules! uints {
    ($cb:ident) => { uints!{$cb []} };
    ($cb:ident [$($x:tt)*]) => {
        $cb!{u8x2, u8, 2, 1, U, m8x2, m8 $($x)*}
        $cb!{u8x4, u8, 4, 1, U, m8x4, m8 $($x)*}
        $cb!{u8x8, u8, 8, 1, U, m8x8, m8 $($x)*}
        $cb!{u8x16, u8, 16, 1, U, m8x16, m8 $($x)*}
        $cb!{u8x32, u8, 32, 1, U, m8x32, m8 $($x)*}
        $cb!{u8x64, u8, 64, 1, U, m8x64, m8 $($x)*}
        $cb!{u16x2, u16, 2, 2, U, m16x2, m16 $($x)*}
        $cb!{u16x4, u16, 4, 2, U, m16x4, m16 $($x)*}
        $cb!{u16x8, u16, 8, 2, U, m16x8, m16 $($x)*}
        $cb!{u16x16, u16, 16, 2, U, m16x16, m16 $($x)*}
        $cb!{u16x32, u16, 32, 2, U, m16x32, m16 $($x)*}
        $cb!{u32x2, u32, 2, 4, U, m32x2, m32 $($x)*}
        $cb!{u32x4, u32, 4, 4, U, m32x4, m32 $($x)*}
        $cb!{u32x8, u32, 8, 4, U, m32x8, m32 $($x)*}
        $cb!{u32x16, u32, 16, 4, U, m32x16, m32 $($x)*}
        $cb!{u64x2, u64, 2, 8, U, m64x2, m64 $($x)*}
        $cb!{u64x4, u64, 4, 8, U, m64x4, m64 $($x)*}
        $cb!{u64x8, u64, 8, 8, U, m64x8, m64 $($x)*}
        $cb!{u128x1, u128, 1, 16, U, m128x1, m128 $($x)*}
        $cb!{u128x2, u128, 2, 16, U, m128x2, m128 $($x)*}
        $cb!{u128x4, u128, 4, 16, U, m128x4, m128 $($x)*}
        $cb!{usizex2, usize, 2, 8, U, msizex2, msize $($x)*}
        $cb!{usizex4, usize, 4, 8, U, msizex4, msize $($x)*}
        $cb!{usizex8, usize, 8, 8, U, msizex8, msize $($x)*}
    };
}
#[macro_export]
macro_rules! floats {
    ($cb:ident) => { floats!{$cb []} };
    ($cb:ident [$($x:tt)*]) => {
        $cb!{f32x2, f32, 2, 4, F, m32x2, m32 $($x)*}
        $cb!{f32x4, f32, 4, 4, F, m32x4, m32 $($x)*}
        $cb!{f32x8, f32, 8, 4, F, m32x8, m32 $($x)*}
        $cb!{f32x16, f32, 16, 4, F, m32x16, m32 $($x)*}
        $cb!{f64x2, f64, 2, 8, F, m64x2, m64 $($x)*}
        $cb!{f64x4, f64, 4, 8, F, m64x4, m64 $($x)*}
        $cb!{f64x8, f64, 8, 8, F, m64x8, m64 $($x)*}
    };
}
#[macro_export]
macro_rules! masks {
    ($cb:ident) => { masks!{$cb []} };
    ($cb:ident [$($x:tt)*]) => {
        $cb!{m8x2, m8, 2, 1, M, m8x2, m8 $($x)*}
        $cb!{m8x4, m8, 4, 1, M, m8x4, m8 $($x)*}
        $cb!{m8x8, m8, 8, 1, M, m8x8, m8 $($x)*}
        $cb!{m8x16, m8, 16, 1, M, m8x16, m8 $($x)*}
        $cb!{m8x32, m8, 32, 1, M, m8x32, m8 $($x)*}
        $cb!{m8x64, m8, 64, 1, M, m8x64, m8 $($x)*}
        $cb!{m16x2, m16, 2, 2, M, m16x2, m16 $($x)*}
        $cb!{m16x4, m16, 4, 2, M, m16x4, m16 $($x)*}
        $cb!{m16x8, m16, 8, 2, M, m16x8, m16 $($x)*}
        $cb!{m16x16, m16, 16, 2, M, m16x16, m16 $($x)*}
        $cb!{m16x32, m16, 32, 2, M, m16x32, m16 $($x)*}
        $cb!{m32x2, m32, 2, 4, M, m32x2, m32 $($x)*}
        $cb!{m32x4, m32, 4, 4, M, m32x4, m32 $($x)*}
        $cb!{m32x8, m32, 8, 4, M, m32x8, m32 $($x)*}
        $cb!{m32x16, m32, 16, 4, M, m32x16, m32 $($x)*}
        $cb!{m64x2, m64, 2, 8, M, m64x2, m64 $($x)*}
        $cb!{m64x4, m64, 4, 8, M, m64x4, m64 $($x)*}
        $cb!{m64x8, m64, 8, 8, M, m64x8, m64 $($x)*}
        $cb!{m128x1, m128, 1, 16, M, m128x1, m128 $($x)*}
        $cb!{m128x2, m128, 2, 16, M, m128x2, m128 $($x)*}
        $cb!{m128x4, m128, 4, 16, M, m128x4, m128 $($x)*}
        $cb!{msizex2, msize, 2, 8, M, msizex2, msize $($x)*}
        $cb!{msizex4, msize, 4, 8, M, msizex4, msize $($x)*}
        $cb!{msizex8, msize, 8, 8, M, msizex8, msize $($x)*}
    };
}
#[macro_export]
macro_rules! nums {
    ($cb:ident) => { nums!{$cb []} };
    ($cb:ident [$($x:tt)*]) => {
        $cb!{i8x2, i8, 2, 1, I, m8x2, m8 $($x)*}
        $cb!{i8x4, i8, 4, 1, I, m8x4, m8 $($x)*}
        $cb!{i8x8, i8, 8, 1, I, m8x8, m8 $($x)*}
        $cb!{i8x16, i8, 16, 1, I, m8x16, m8 $($x)*}
        $cb!{i8x32, i8, 32, 1, I, m8x32, m8 $($x)*}
        $cb!{i8x64, i8, 64, 1, I, m8x64, m8 $($x)*}
        $cb!{i16x2, i16, 2, 2, I, m16x2, m16 $($x)*}
        $cb!{i16x4, i16, 4, 2, I, m16x4, m16 $($x)*}
        $cb!{i16x8, i16, 8, 2, I, m16x8, m16 $($x)*}
        $cb!{i16x16, i16, 16, 2, I, m16x16, m16 $($x)*}
        $cb!{i16x32, i16, 32, 2, I, m16x32, m16 $($x)*}
        $cb!{i32x2, i32, 2, 4, I, m32x2, m32 $($x)*}
        $cb!{i32x4, i32, 4, 4, I, m32x4, m32 $($x)*}
        $cb!{i32x8, i32, 8, 4, I, m32x8, m32 $($x)*}
        $cb!{i32x16, i32, 16, 4, I, m32x16, m32 $($x)*}
        $cb!{i64x2, i64, 2, 8, I, m64x2, m64 $($x)*}
        $cb!{i64x4, i64, 4, 8, I, m64x4, m64 $($x)*}
        $cb!{i64x8, i64, 8, 8, I, m64x8, m64 $($x)*}
        $cb!{i128x1, i128, 1, 16, I, m128x1, m128 $($x)*}
        $cb!{i128x2, i128, 2, 16, I, m128x2, m128 $($x)*}
        $cb!{i128x4, i128, 4, 16, I, m128x4, m128 $($x)*}
        $cb!{isizex2, isize, 2, 8, I, msizex2, msize $($x)*}
        $cb!{isizex4, isize, 4, 8, I, msizex4, msize $($x)*}
        $cb!{isizex8, isize, 8, 8, I, msizex8, msize $($x)*}
        $cb!{u8x2, u8, 2, 1, U, m8x2, m8 $($x)*}
        $cb!{u8x4, u8, 4, 1, U, m8x4, m8 $($x)*}
        $cb!{u8x8, u8, 8, 1, U, m8x8, m8 $($x)*}
        $cb!{u8x16, u8, 16, 1, U, m8x16, m8 $($x)*}
        $cb!{u8x32, u8, 32, 1, U, m8x32, m8 $($x)*}
        $cb!{u8x64, u8, 64, 1, U, m8x64, m8 $($x)*}
        $cb!{u16x2, u16, 2, 2, U, m16x2, m16 $($x)*}
        $cb!{u16x4, u16, 4, 2, U, m16x4, m16 $($x)*}
        $cb!{u16x8, u16, 8, 2, U, m16x8, m16 $($x)*}
        $cb!{u16x16, u16, 16, 2, U, m16x16, m16 $($x)*}
        $cb!{u16x32, u16, 32, 2, U, m16x32, m16 $($x)*}
        $cb!{u32x2, u32, 2, 4, U, m32x2, m32 $($x)*}
        $cb!{u32x4, u32, 4, 4, U, m32x4, m32 $($x)*}
        $cb!{u32x8, u32, 8, 4, U, m32x8, m32 $($x)*}
        $cb!{u32x16, u32, 16, 4, U, m32x16, m32 $($x)*}
        $cb!{u64x2, u64, 2, 8, U, m64x2, m64 $($x)*}
        $cb!{u64x4, u64, 4, 8, U, m64x4, m64 $($x)*}
        $cb!{u64x8, u64, 8, 8, U, m64x8, m64 $($x)*}
        $cb!{u128x1, u128, 1, 16, U, m128x1, m128 $($x)*}
        $cb!{u128x2, u128, 2, 16, U, m128x2, m128 $($x)*}
        $cb!{u128x4, u128, 4, 16, U, m128x4, m128 $($x)*}
        $cb!{usizex2, usize, 2, 8, U, msizex2, msize $($x)*}
        $cb!{usizex4, usize, 4, 8, U, msizex4, msize $($x)*}
        $cb!{usizex8, usize, 8, 8, U, msizex8, msize $($x)*}
        $cb!{f32x2, f32, 2, 4, F, m32x2, m32 $($x)*}
        $cb!{f32x4, f32, 4, 4, F, m32x4, m32 $($x)*}
        $cb!{f32x8, f32, 8, 4, F, m32x8, m32 $($x)*}
        $cb!{f32x16, f32, 16, 4, F, m32x16, m32 $($x)*}
        $cb!{f64x2, f64, 2, 8, F, m64x2, m64 $($x)*}
        $cb!{f64x4, f64, 4, 8, F, m64x4, m64 $($x)*}
        $cb!{f64x8, f64, 8, 8, F, m64x8, m64 $($x)*}
    };
}
#[macro_export]
macro_rules! alls {
    ($cb:ident) => { alls!{$cb []} };
    ($cb:ident [$($x:tt)*]) => {
        $cb!{i8x2, i8, 2, 1, I, m8x2, m8 $($x)*}
        $cb!{i8x4, i8, 4, 1, I, m8x4, m8 $($x)*}
        $cb!{i8x8, i8, 8, 1, I, m8x8, m8 $($x)*}
        $cb!{i8x16, i8, 16, 1, I, m8x16, m8 $($x)*}
        $cb!{i8x32, i8, 32, 1, I, m8x32, m8 $($x)*}
        $cb!{i8x64, i8, 64, 1, I, m8x64, m8 $($x)*}
        $cb!{i16x2, i16, 2, 2, I, m16x2, m16 $($x)*}
        $cb!{i16x4, i16, 4, 2, I, m16x4, m16 $($x)*}
        $cb!{i16x8, i16, 8, 2, I, m16x8, m16 $($x)*}
        $cb!{i16x16, i16, 16, 2, I, m16x16, m16 $($x)*}
        $cb!{i16x32, i16, 32, 2, I, m16x32, m16 $($x)*}
        $cb!{i32x2, i32, 2, 4, I, m32x2, m32 $($x)*}
        $cb!{i32x4, i32, 4, 4, I, m32x4, m32 $($x)*}
        $cb!{i32x8, i32, 8, 4, I, m32x8, m32 $($x)*}
        $cb!{i32x16, i32, 16, 4, I, m32x16, m32 $($x)*}
        $cb!{i64x2, i64, 2, 8, I, m64x2, m64 $($x)*}
        $cb!{i64x4, i64, 4, 8, I, m64x4, m64 $($x)*}
        $cb!{i64x8, i64, 8, 8, I, m64x8, m64 $($x)*}
        $cb!{i128x1, i128, 1, 16, I, m128x1, m128 $($x)*}
        $cb!{i128x2, i128, 2, 16, I, m128x2, m128 $($x)*}
        $cb!{i128x4, i128, 4, 16, I, m128x4, m128 $($x)*}
        $cb!{isizex2, isize, 2, 8, I, msizex2, msize $($x)*}
        $cb!{isizex4, isize, 4, 8, I, msizex4, msize $($x)*}
        $cb!{isizex8, isize, 8, 8, I, msizex8, msize $($x)*}
        $cb!{u8x2, u8, 2, 1, U, m8x2, m8 $($x)*}
        $cb!{u8x4, u8, 4, 1, U, m8x4, m8 $($x)*}
        $cb!{u8x8, u8, 8, 1, U, m8x8, m8 $($x)*}
        $cb!{u8x16, u8, 16, 1, U, m8x16, m8 $($x)*}
        $cb!{u8x32, u8, 32, 1, U, m8x32, m8 $($x)*}
        $cb!{u8x64, u8, 64, 1, U, m8x64, m8 $($x)*}
        $cb!{u16x2, u16, 2, 2, U, m16x2, m16 $($x)*}
        $cb!{u16x4, u16, 4, 2, U, m16x4, m16 $($x)*}
        $cb!{u16x8, u16, 8, 2, U, m16x8, m16 $($x)*}
        $cb!{u16x16, u16, 16, 2, U, m16x16, m16 $($x)*}
        $cb!{u16x32, u16, 32, 2, U, m16x32, m16 $($x)*}
        $cb!{u32x2, u32, 2, 4, U, m32x2, m32 $($x)*}
        $cb!{u32x4, u32, 4, 4, U, m32x4, m32 $($x)*}
        $cb!{u32x8, u32, 8, 4, U, m32x8, m32 $($x)*}
        $cb!{u32x16, u32, 16, 4, U, m32x16, m32 $($x)*}
        $cb!{u64x2, u64, 2, 8, U, m64x2, m64 $($x)*}
        $cb!{u64x4, u64, 4, 8, U, m64x4, m64 $($x)*}
        $cb!{u64x8, u64, 8, 8, U, m64x8, m64 $($x)*}
        $cb!{u128x1, u128, 1, 16, U, m128x1, m128 $($x)*}
        $cb!{u128x2, u128, 2, 16, U, m128x2, m128 $($x)*}
        $cb!{u128x4, u128, 4, 16, U, m128x4, m128 $($x)*}
        $cb!{usizex2, usize, 2, 8, U, msizex2, msize $($x)*}
        $cb!{usizex4, usize, 4, 8, U, msizex4, msize $($x)*}
        $cb!{usizex8, usize, 8, 8, U, msizex8, msize $($x)*}
        $cb!{f32x2, f32, 2, 4, F, m32x2, m32 $($x)*}
        $cb!{f32x4, f32, 4, 4, F, m32x4, m32 $($x)*}
        $cb!{f32x8, f32, 8, 4, F, m32x8, m32 $($x)*}
        $cb!{f32x16, f32, 16, 4, F, m32x16, m32 $($x)*}
        $cb!{f64x2, f64, 2, 8, F, m64x2, m64 $($x)*}
        $cb!{f64x4, f64, 4, 8, F, m64x4, m64 $($x)*}
        $cb!{f64x8, f64, 8, 8, F, m64x8, m64 $($x)*}
        $cb!{m8x2, m8, 2, 1, M, m8x2, m8 $($x)*}
        $cb!{m8x4, m8, 4, 1, M, m8x4, m8 $($x)*}
        $cb!{m8x8, m8, 8, 1, M, m8x8, m8 $($x)*}
        $cb!{m8x16, m8, 16, 1, M, m8x16, m8 $($x)*}
        $cb!{m8x32, m8, 32, 1, M, m8x32, m8 $($x)*}
        $cb!{m8x64, m8, 64, 1, M, m8x64, m8 $($x)*}
        $cb!{m16x2, m16, 2, 2, M, m16x2, m16 $($x)*}
        $cb!{m16x4, m16, 4, 2, M, m16x4, m16 $($x)*}
        $cb!{m16x8, m16, 8, 2, M, m16x8, m16 $($x)*}
        $cb!{m16x16, m16, 16, 2, M, m16x16, m16 $($x)*}
        $cb!{m16x32, m16, 32, 2, M, m16x32, m16 $($x)*}
        $cb!{m32x2, m32, 2, 4, M, m32x2, m32 $($x)*}
        $cb!{m32x4, m32, 4, 4, M, m32x4, m32 $($x)*}
        $cb!{m32x8, m32, 8, 4, M, m32x8, m32 $($x)*}
        $cb!{m32x16, m32, 16, 4, M, m32x16, m32 $($x)*}
        $cb!{m64x2, m64, 2, 8, M, m64x2, m64 $($x)*}
        $cb!{m64x4, m64, 4, 8, M, m64x4, m64 $($x)*}
        $cb!{m64x8, m64, 8, 8, M, m64x8, m64 $($x)*}
        $cb!{m128x1, m128, 1, 16, M, m128x1, m128 $($x)*}
        $cb!{m128x2, m128, 2, 16, M, m128x2, m128 $($x)*}
        $cb!{m128x4, m128, 4, 16, M, m128x4, m128 $($x)*}
        $cb!{msizex2, msize, 2, 8, M, msizex2, msize $($x)*}
        $cb!{msizex4, msize, 4, 8, M, msizex4, msize $($x)*}
        $cb!{msizex8, msize, 8, 8, M, msizex8, msize $($x)*}
    };
}
/// pointer vectors: cb!{vector, const|mut, lanes, mask, usize vector, isize vector}
#[macro_export]
macro_rules! ptrs {
    ($cb:ident) => {
        $cb!{cptrx2, const, 2, msizex2, usizex2, isizex2}
        $cb!{cptrx4, const, 4, msizex4, usizex4, isizex4}
        $cb!{cptrx8, const, 8, msizex8, usizex8, isizex8}
        $cb!{mptrx2, mut, 2, msizex2, usizex2, isizex2}
        $cb!{mptrx4, mut, 4, msizex4, usizex4, isizex4}
        $cb!{mptrx8, mut, 8, msizex8, usizex8, isizex8}
    };
}
