// generated by tools/mklists.py
fn list_dyn() {
dy!{i8x2 u8x2 I 1 2}
dy!{i8x4 u8x4 I 1 4}
dy!{i8x8 u8x8 I 1 8}
dy!{i8x16 u8x16 I 1 16}
dy!{i8x32 u8x32 I 1 32}
dy!{i8x64 u8x64 I 1 64}
dy!{i16x2 u16x2 I 2 2}
dy!{i16x4 u16x4 I 2 4}
dy!{i16x8 u16x8 I 2 8}
dy!{i16x16 u16x16 I 2 16}
dy!{i16x32 u16x32 I 2 32}
dy!{i32x2 u32x2 I 4 2}
dy!{i32x4 u32x4 I 4 4}
dy!{i32x8 u32x8 I 4 8}
dy!{i32x16 u32x16 I 4 16}
dy!{i64x2 u64x2 I 8 2}
dy!{i64x4 u64x4 I 8 4}
dy!{i64x8 u64x8 I 8 8}
dy!{i128x1 u128x1 I 16 1}
dy!{i128x2 u128x2 I 16 2}
dy!{i128x4 u128x4 I 16 4}
dy!{isizex2 usizex2 I 8 2}
dy!{isizex4 usizex4 I 8 4}
dy!{isizex8 usizex8 I 8 8}
dy!{u8x2 u8x2 U 1 2}
dy!{u8x4 u8x4 U 1 4}
dy!{u8x8 u8x8 U 1 8}
dy!{u8x16 u8x16 U 1 16}
dy!{u8x32 u8x32 U 1 32}
dy!{u8x64 u8x64 U 1 64}
dy!{u16x2 u16x2 U 2 2}
dy!{u16x4 u16x4 U 2 4}
dy!{u16x8 u16x8 U 2 8}
dy!{u16x16 u16x16 U 2 16}
dy!{u16x32 u16x32 U 2 32}
dy!{u32x2 u32x2 U 4 2}
dy!{u32x4 u32x4 U 4 4}
dy!{u32x8 u32x8 U 4 8}
dy!{u32x16 u32x16 U 4 16}
dy!{u64x2 u64x2 U 8 2}
dy!{u64x4 u64x4 U 8 4}
dy!{u64x8 u64x8 U 8 8}
dy!{u128x1 u128x1 U 16 1}
dy!{u128x2 u128x2 U 16 2}
dy!{u128x4 u128x4 U 16 4}
dy!{usizex2 usizex2 U 8 2}
dy!{usizex4 usizex4 U 8 4}
dy!{usizex8 usizex8 U 8 8}
dy!{f32x2 u32x2 F 4 2}
dy!{f32x4 u32x4 F 4 4}
dy!{f32x8 u32x8 F 4 8}
dy!{f32x16 u32x16 F 4 16}
dy!{f64x2 u64x2 F 8 2}
dy!{f64x4 u64x4 F 8 4}
dy!{f64x8 u64x8 F 8 8}
dy!{m8x2 u8x2 M 1 2}
dy!{m8x4 u8x4 M 1 4}
dy!{m8x8 u8x8 M 1 8}
dy!{m8x16 u8x16 M 1 16}
dy!{m8x32 u8x32 M 1 32}
dy!{m8x64 u8x64 M 1 64}
dy!{m16x2 u16x2 M 2 2}
dy!{m16x4 u16x4 M 2 4}
dy!{m16x8 u16x8 M 2 8}
dy!{m16x16 u16x16 M 2 16}
dy!{m16x32 u16x32 M 2 32}
dy!{m32x2 u32x2 M 4 2}
dy!{m32x4 u32x4 M 4 4}
dy!{m32x8 u32x8 M 4 8}
dy!{m32x16 u32x16 M 4 16}
dy!{m64x2 u64x2 M 8 2}
dy!{m64x4 u64x4 M 8 4}
dy!{m64x8 u64x8 M 8 8}
dy!{m128x1 u128x1 M 16 1}
dy!{m128x2 u128x2 M 16 2}
dy!{m128x4 u128x4 M 16 4}
dy!{msizex2 usizex2 M 8 2}
dy!{msizex4 usizex4 M 8 4}
dy!{msizex8 usizex8 M 8 8}
}
