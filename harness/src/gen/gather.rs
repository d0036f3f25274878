fn list_gather() {
    gs!(i8x2 i8, I 1 2; cptrx2 mptrx2 m8x2 1);
    gs!(u8x2 u8, U 1 2; cptrx2 mptrx2 m16x2 2);
    gs!(i16x2 i16, I 2 2; cptrx2 mptrx2 m32x2 4);
    gs!(u16x2 u16, U 2 2; cptrx2 mptrx2 m64x2 8);
    gs!(i32x2 i32, I 4 2; cptrx2 mptrx2 m8x2 1);
    gs!(i32x2 i32, I 4 2; cptrx2 mptrx2 m16x2 2);
    gs!(i32x2 i32, I 4 2; cptrx2 mptrx2 m32x2 4);
    gs!(i32x2 i32, I 4 2; cptrx2 mptrx2 m64x2 8);
    gs!(i32x2 i32, I 4 2; cptrx2 mptrx2 m128x2 16);
    gs!(i32x2 i32, I 4 2; cptrx2 mptrx2 msizex2 8);
    gs!(u32x2 u32, U 4 2; cptrx2 mptrx2 msizex2 8);
    gs!(i64x2 i64, I 8 2; cptrx2 mptrx2 m8x2 1);
    gs!(u64x2 u64, U 8 2; cptrx2 mptrx2 m16x2 2);
    gs!(i128x2 i128, I 16 2; cptrx2 mptrx2 m32x2 4);
    gs!(u128x2 u128, U 16 2; cptrx2 mptrx2 m64x2 8);
    gs!(f32x2 f32, F 4 2; cptrx2 mptrx2 m128x2 16);
    gs!(f64x2 f64, F 8 2; cptrx2 mptrx2 m8x2 1);
    gs!(f64x2 f64, F 8 2; cptrx2 mptrx2 m16x2 2);
    gs!(f64x2 f64, F 8 2; cptrx2 mptrx2 m32x2 4);
    gs!(f64x2 f64, F 8 2; cptrx2 mptrx2 m64x2 8);
    gs!(f64x2 f64, F 8 2; cptrx2 mptrx2 m128x2 16);
    gs!(f64x2 f64, F 8 2; cptrx2 mptrx2 msizex2 8);
    gs!(i8x4 i8, I 1 4; cptrx4 mptrx4 m8x4 1);
    gs!(u8x4 u8, U 1 4; cptrx4 mptrx4 m16x4 2);
    gs!(i16x4 i16, I 2 4; cptrx4 mptrx4 m32x4 4);
    gs!(u16x4 u16, U 2 4; cptrx4 mptrx4 m64x4 8);
    gs!(i32x4 i32, I 4 4; cptrx4 mptrx4 m8x4 1);
    gs!(i32x4 i32, I 4 4; cptrx4 mptrx4 m16x4 2);
    gs!(i32x4 i32, I 4 4; cptrx4 mptrx4 m32x4 4);
    gs!(i32x4 i32, I 4 4; cptrx4 mptrx4 m64x4 8);
    gs!(i32x4 i32, I 4 4; cptrx4 mptrx4 m128x4 16);
    gs!(i32x4 i32, I 4 4; cptrx4 mptrx4 msizex4 8);
    gs!(u32x4 u32, U 4 4; cptrx4 mptrx4 msizex4 8);
    gs!(i64x4 i64, I 8 4; cptrx4 mptrx4 m8x4 1);
    gs!(u64x4 u64, U 8 4; cptrx4 mptrx4 m16x4 2);
    gs!(i128x4 i128, I 16 4; cptrx4 mptrx4 m32x4 4);
    gs!(u128x4 u128, U 16 4; cptrx4 mptrx4 m64x4 8);
    gs!(f32x4 f32, F 4 4; cptrx4 mptrx4 m128x4 16);
    gs!(f64x4 f64, F 8 4; cptrx4 mptrx4 m8x4 1);
    gs!(f64x4 f64, F 8 4; cptrx4 mptrx4 m16x4 2);
    gs!(f64x4 f64, F 8 4; cptrx4 mptrx4 m32x4 4);
    gs!(f64x4 f64, F 8 4; cptrx4 mptrx4 m64x4 8);
    gs!(f64x4 f64, F 8 4; cptrx4 mptrx4 m128x4 16);
    gs!(f64x4 f64, F 8 4; cptrx4 mptrx4 msizex4 8);
    gs!(i8x8 i8, I 1 8; cptrx8 mptrx8 msizex8 8);
    gs!(u8x8 u8, U 1 8; cptrx8 mptrx8 m8x8 1);
    gs!(i16x8 i16, I 2 8; cptrx8 mptrx8 m16x8 2);
    gs!(u16x8 u16, U 2 8; cptrx8 mptrx8 m32x8 4);
    gs!(i32x8 i32, I 4 8; cptrx8 mptrx8 m8x8 1);
    gs!(i32x8 i32, I 4 8; cptrx8 mptrx8 m16x8 2);
    gs!(i32x8 i32, I 4 8; cptrx8 mptrx8 m32x8 4);
    gs!(i32x8 i32, I 4 8; cptrx8 mptrx8 m64x8 8);
    gs!(i32x8 i32, I 4 8; cptrx8 mptrx8 msizex8 8);
    gs!(u32x8 u32, U 4 8; cptrx8 mptrx8 msizex8 8);
    gs!(i64x8 i64, I 8 8; cptrx8 mptrx8 m8x8 1);
    gs!(u64x8 u64, U 8 8; cptrx8 mptrx8 m16x8 2);
    gs!(f32x8 f32, F 4 8; cptrx8 mptrx8 m32x8 4);
    gs!(f64x8 f64, F 8 8; cptrx8 mptrx8 m8x8 1);
    gs!(f64x8 f64, F 8 8; cptrx8 mptrx8 m16x8 2);
    gs!(f64x8 f64, F 8 8; cptrx8 mptrx8 m32x8 4);
    gs!(f64x8 f64, F 8 8; cptrx8 mptrx8 m64x8 8);
    gs!(f64x8 f64, F 8 8; cptrx8 mptrx8 msizex8 8);
}
