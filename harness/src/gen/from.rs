// generated by tools/mklists.py
fn list_from() {
from!{f32x2, f64x2, F, 4, 2, F, 8}
from!{f32x4, f64x4, F, 4, 4, F, 8}
from!{f32x8, f64x8, F, 4, 8, F, 8}
from!{i16x16, f32x16, I, 2, 16, F, 4}
from!{i16x16, i32x16, I, 2, 16, I, 4}
from!{i16x2, f32x2, I, 2, 2, F, 4}
from!{i16x2, f64x2, I, 2, 2, F, 8}
from!{i16x2, i128x2, I, 2, 2, I, 16}
from!{i16x2, i32x2, I, 2, 2, I, 4}
from!{i16x2, i64x2, I, 2, 2, I, 8}
from!{i16x4, f32x4, I, 2, 4, F, 4}
from!{i16x4, f64x4, I, 2, 4, F, 8}
from!{i16x4, i128x4, I, 2, 4, I, 16}
from!{i16x4, i32x4, I, 2, 4, I, 4}
from!{i16x4, i64x4, I, 2, 4, I, 8}
from!{i16x8, f32x8, I, 2, 8, F, 4}
from!{i16x8, f64x8, I, 2, 8, F, 8}
from!{i16x8, i32x8, I, 2, 8, I, 4}
from!{i16x8, i64x8, I, 2, 8, I, 8}
from!{i32x2, f64x2, I, 4, 2, F, 8}
from!{i32x2, i128x2, I, 4, 2, I, 16}
from!{i32x2, i64x2, I, 4, 2, I, 8}
from!{i32x4, f64x4, I, 4, 4, F, 8}
from!{i32x4, i128x4, I, 4, 4, I, 16}
from!{i32x4, i64x4, I, 4, 4, I, 8}
from!{i32x8, f64x8, I, 4, 8, F, 8}
from!{i32x8, i64x8, I, 4, 8, I, 8}
from!{i64x2, i128x2, I, 8, 2, I, 16}
from!{i64x4, i128x4, I, 8, 4, I, 16}
from!{i8x16, f32x16, I, 1, 16, F, 4}
from!{i8x16, i16x16, I, 1, 16, I, 2}
from!{i8x16, i32x16, I, 1, 16, I, 4}
from!{i8x2, f32x2, I, 1, 2, F, 4}
from!{i8x2, f64x2, I, 1, 2, F, 8}
from!{i8x2, i128x2, I, 1, 2, I, 16}
from!{i8x2, i16x2, I, 1, 2, I, 2}
from!{i8x2, i32x2, I, 1, 2, I, 4}
from!{i8x2, i64x2, I, 1, 2, I, 8}
from!{i8x32, i16x32, I, 1, 32, I, 2}
from!{i8x4, f32x4, I, 1, 4, F, 4}
from!{i8x4, f64x4, I, 1, 4, F, 8}
from!{i8x4, i128x4, I, 1, 4, I, 16}
from!{i8x4, i16x4, I, 1, 4, I, 2}
from!{i8x4, i32x4, I, 1, 4, I, 4}
from!{i8x4, i64x4, I, 1, 4, I, 8}
from!{i8x8, f32x8, I, 1, 8, F, 4}
from!{i8x8, f64x8, I, 1, 8, F, 8}
from!{i8x8, i16x8, I, 1, 8, I, 2}
from!{i8x8, i32x8, I, 1, 8, I, 4}
from!{i8x8, i64x8, I, 1, 8, I, 8}
from!{m128x2, m16x2, M, 16, 2, M, 2}
from!{m128x2, m32x2, M, 16, 2, M, 4}
from!{m128x2, m64x2, M, 16, 2, M, 8}
from!{m128x2, m8x2, M, 16, 2, M, 1}
from!{m16x16, m32x16, M, 2, 16, M, 4}
from!{m16x16, m8x16, M, 2, 16, M, 1}
from!{m16x2, m128x2, M, 2, 2, M, 16}
from!{m16x2, m32x2, M, 2, 2, M, 4}
from!{m16x2, m64x2, M, 2, 2, M, 8}
from!{m16x2, m8x2, M, 2, 2, M, 1}
from!{m16x4, m128x4, M, 2, 4, M, 16}
from!{m16x4, m32x4, M, 2, 4, M, 4}
from!{m16x4, m64x4, M, 2, 4, M, 8}
from!{m16x4, m8x4, M, 2, 4, M, 1}
from!{m16x8, m32x8, M, 2, 8, M, 4}
from!{m16x8, m64x8, M, 2, 8, M, 8}
from!{m16x8, m8x8, M, 2, 8, M, 1}
from!{m32x2, m128x2, M, 4, 2, M, 16}
from!{m32x2, m16x2, M, 4, 2, M, 2}
from!{m32x2, m64x2, M, 4, 2, M, 8}
from!{m32x2, m8x2, M, 4, 2, M, 1}
from!{m32x4, m128x4, M, 4, 4, M, 16}
from!{m32x4, m16x4, M, 4, 4, M, 2}
from!{m32x4, m64x4, M, 4, 4, M, 8}
from!{m32x4, m8x4, M, 4, 4, M, 1}
from!{m32x8, m16x8, M, 4, 8, M, 2}
from!{m32x8, m64x8, M, 4, 8, M, 8}
from!{m32x8, m8x8, M, 4, 8, M, 1}
from!{m64x2, m128x2, M, 8, 2, M, 16}
from!{m64x2, m16x2, M, 8, 2, M, 2}
from!{m64x2, m32x2, M, 8, 2, M, 4}
from!{m64x2, m8x2, M, 8, 2, M, 1}
from!{m64x4, m128x4, M, 8, 4, M, 16}
from!{m64x4, m16x4, M, 8, 4, M, 2}
from!{m64x4, m32x4, M, 8, 4, M, 4}
from!{m64x4, m8x4, M, 8, 4, M, 1}
from!{m8x16, m16x16, M, 1, 16, M, 2}
from!{m8x16, m32x16, M, 1, 16, M, 4}
from!{m8x2, m128x2, M, 1, 2, M, 16}
from!{m8x2, m16x2, M, 1, 2, M, 2}
from!{m8x2, m32x2, M, 1, 2, M, 4}
from!{m8x2, m64x2, M, 1, 2, M, 8}
from!{m8x32, m16x32, M, 1, 32, M, 2}
from!{m8x4, m128x4, M, 1, 4, M, 16}
from!{m8x4, m16x4, M, 1, 4, M, 2}
from!{m8x4, m32x4, M, 1, 4, M, 4}
from!{m8x4, m64x4, M, 1, 4, M, 8}
from!{m8x8, m16x8, M, 1, 8, M, 2}
from!{m8x8, m32x8, M, 1, 8, M, 4}
from!{m8x8, m64x8, M, 1, 8, M, 8}
from!{u16x16, f32x16, U, 2, 16, F, 4}
from!{u16x16, i32x16, U, 2, 16, I, 4}
from!{u16x16, u32x16, U, 2, 16, U, 4}
from!{u16x2, f32x2, U, 2, 2, F, 4}
from!{u16x2, f64x2, U, 2, 2, F, 8}
from!{u16x2, i128x2, U, 2, 2, I, 16}
from!{u16x2, i32x2, U, 2, 2, I, 4}
from!{u16x2, i64x2, U, 2, 2, I, 8}
from!{u16x2, u128x2, U, 2, 2, U, 16}
from!{u16x2, u32x2, U, 2, 2, U, 4}
from!{u16x2, u64x2, U, 2, 2, U, 8}
from!{u16x4, f32x4, U, 2, 4, F, 4}
from!{u16x4, f64x4, U, 2, 4, F, 8}
from!{u16x4, i128x4, U, 2, 4, I, 16}
from!{u16x4, i32x4, U, 2, 4, I, 4}
from!{u16x4, i64x4, U, 2, 4, I, 8}
from!{u16x4, u128x4, U, 2, 4, U, 16}
from!{u16x4, u32x4, U, 2, 4, U, 4}
from!{u16x4, u64x4, U, 2, 4, U, 8}
from!{u16x8, f32x8, U, 2, 8, F, 4}
from!{u16x8, f64x8, U, 2, 8, F, 8}
from!{u16x8, i32x8, U, 2, 8, I, 4}
from!{u16x8, i64x8, U, 2, 8, I, 8}
from!{u16x8, u32x8, U, 2, 8, U, 4}
from!{u16x8, u64x8, U, 2, 8, U, 8}
from!{u32x2, f64x2, U, 4, 2, F, 8}
from!{u32x2, i128x2, U, 4, 2, I, 16}
from!{u32x2, i64x2, U, 4, 2, I, 8}
from!{u32x2, u128x2, U, 4, 2, U, 16}
from!{u32x2, u64x2, U, 4, 2, U, 8}
from!{u32x4, f64x4, U, 4, 4, F, 8}
from!{u32x4, i128x4, U, 4, 4, I, 16}
from!{u32x4, i64x4, U, 4, 4, I, 8}
from!{u32x4, u128x4, U, 4, 4, U, 16}
from!{u32x4, u64x4, U, 4, 4, U, 8}
from!{u32x8, f64x8, U, 4, 8, F, 8}
from!{u32x8, i64x8, U, 4, 8, I, 8}
from!{u32x8, u64x8, U, 4, 8, U, 8}
from!{u64x2, i128x2, U, 8, 2, I, 16}
from!{u64x2, u128x2, U, 8, 2, U, 16}
from!{u64x4, i128x4, U, 8, 4, I, 16}
from!{u64x4, u128x4, U, 8, 4, U, 16}
from!{u8x16, f32x16, U, 1, 16, F, 4}
from!{u8x16, i16x16, U, 1, 16, I, 2}
from!{u8x16, i32x16, U, 1, 16, I, 4}
from!{u8x16, u16x16, U, 1, 16, U, 2}
from!{u8x16, u32x16, U, 1, 16, U, 4}
from!{u8x2, f32x2, U, 1, 2, F, 4}
from!{u8x2, f64x2, U, 1, 2, F, 8}
from!{u8x2, i128x2, U, 1, 2, I, 16}
from!{u8x2, i16x2, U, 1, 2, I, 2}
from!{u8x2, i32x2, U, 1, 2, I, 4}
from!{u8x2, i64x2, U, 1, 2, I, 8}
from!{u8x2, u128x2, U, 1, 2, U, 16}
from!{u8x2, u16x2, U, 1, 2, U, 2}
from!{u8x2, u32x2, U, 1, 2, U, 4}
from!{u8x2, u64x2, U, 1, 2, U, 8}
from!{u8x32, i16x32, U, 1, 32, I, 2}
from!{u8x32, u16x32, U, 1, 32, U, 2}
from!{u8x4, f32x4, U, 1, 4, F, 4}
from!{u8x4, f64x4, U, 1, 4, F, 8}
from!{u8x4, i128x4, U, 1, 4, I, 16}
from!{u8x4, i16x4, U, 1, 4, I, 2}
from!{u8x4, i32x4, U, 1, 4, I, 4}
from!{u8x4, i64x4, U, 1, 4, I, 8}
from!{u8x4, u128x4, U, 1, 4, U, 16}
from!{u8x4, u16x4, U, 1, 4, U, 2}
from!{u8x4, u32x4, U, 1, 4, U, 4}
from!{u8x4, u64x4, U, 1, 4, U, 8}
from!{u8x8, f32x8, U, 1, 8, F, 4}
from!{u8x8, f64x8, U, 1, 8, F, 8}
from!{u8x8, i16x8, U, 1, 8, I, 2}
from!{u8x8, i32x8, U, 1, 8, I, 4}
from!{u8x8, i64x8, U, 1, 8, I, 8}
from!{u8x8, u16x8, U, 1, 8, U, 2}
from!{u8x8, u32x8, U, 1, 8, U, 4}
from!{u8x8, u64x8, U, 1, 8, U, 8}
}
