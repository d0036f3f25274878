fn list_prog() {
    prog!{i8x2 u8x2 m8x2 I 1 2}
    prog!{i8x4 u8x4 m8x4 I 1 4}
    prog!{i8x8 u8x8 m8x8 I 1 8}
    prog!{i8x16 u8x16 m8x16 I 1 16}
    prog!{i8x32 u8x32 m8x32 I 1 32}
    prog!{i8x64 u8x64 m8x64 I 1 64}
    prog!{i16x2 u16x2 m16x2 I 2 2}
    prog!{i16x4 u16x4 m16x4 I 2 4}
    prog!{i16x8 u16x8 m16x8 I 2 8}
    prog!{i16x16 u16x16 m16x16 I 2 16}
    prog!{i16x32 u16x32 m16x32 I 2 32}
    prog!{i32x2 u32x2 m32x2 I 4 2}
    prog!{i32x4 u32x4 m32x4 I 4 4}
    prog!{i32x8 u32x8 m32x8 I 4 8}
    prog!{i32x16 u32x16 m32x16 I 4 16}
    prog!{i64x2 u64x2 m64x2 I 8 2}
    prog!{i64x4 u64x4 m64x4 I 8 4}
    prog!{i64x8 u64x8 m64x8 I 8 8}
    prog!{i128x1 u128x1 m128x1 I 16 1}
    prog!{i128x2 u128x2 m128x2 I 16 2}
    prog!{i128x4 u128x4 m128x4 I 16 4}
    prog!{isizex2 usizex2 msizex2 I 8 2}
    prog!{isizex4 usizex4 msizex4 I 8 4}
    prog!{isizex8 usizex8 msizex8 I 8 8}
    prog!{u8x2 u8x2 m8x2 U 1 2}
    prog!{u8x4 u8x4 m8x4 U 1 4}
    prog!{u8x8 u8x8 m8x8 U 1 8}
    prog!{u8x16 u8x16 m8x16 U 1 16}
    prog!{u8x32 u8x32 m8x32 U 1 32}
    prog!{u8x64 u8x64 m8x64 U 1 64}
    prog!{u16x2 u16x2 m16x2 U 2 2}
    prog!{u16x4 u16x4 m16x4 U 2 4}
    prog!{u16x8 u16x8 m16x8 U 2 8}
    prog!{u16x16 u16x16 m16x16 U 2 16}
    prog!{u16x32 u16x32 m16x32 U 2 32}
    prog!{u32x2 u32x2 m32x2 U 4 2}
    prog!{u32x4 u32x4 m32x4 U 4 4}
    prog!{u32x8 u32x8 m32x8 U 4 8}
    prog!{u32x16 u32x16 m32x16 U 4 16}
    prog!{u64x2 u64x2 m64x2 U 8 2}
    prog!{u64x4 u64x4 m64x4 U 8 4}
    prog!{u64x8 u64x8 m64x8 U 8 8}
    prog!{u128x1 u128x1 m128x1 U 16 1}
    prog!{u128x2 u128x2 m128x2 U 16 2}
    prog!{u128x4 u128x4 m128x4 U 16 4}
    prog!{usizex2 usizex2 msizex2 U 8 2}
    prog!{usizex4 usizex4 msizex4 U 8 4}
    prog!{usizex8 usizex8 msizex8 U 8 8}
    prog!{f32x2 u32x2 m32x2 F 4 2}
    prog!{f32x4 u32x4 m32x4 F 4 4}
    prog!{f32x8 u32x8 m32x8 F 4 8}
    prog!{f32x16 u32x16 m32x16 F 4 16}
    prog!{f64x2 u64x2 m64x2 F 8 2}
    prog!{f64x4 u64x4 m64x4 F 8 4}
    prog!{f64x8 u64x8 m64x8 F 8 8}
}
