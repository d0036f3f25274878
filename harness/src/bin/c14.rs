//! C14: bit conversions, byte order, layout.
use harness::*;
use packed_simd::*;
#[allow(unused_imports)]
use std::arch::x86_64::*;

fn bits(r: &mut Rng, k: Kind, w: usize, n: usize) -> Vec<u8> {
    match k {
        Kind::M => gen_mask(w, n, r),
        _ => match r.below(6) {
            0 | 1 => (0..w * n).map(|_| r.next() as u8).collect(),
            2 => gen_vec(r, k, w, n),
            // one byte unlike all others
            3 => {
                let x = [0, 255, 0x80, 1][r.below(4)];
                let mut a = vec![x; w * n];
                a[r.below(w * n)] ^= 1 << r.below(8);
                a
            }
            // all lanes alike
            4 => {
                let l: Vec<u8> = (0..w).map(|_| r.next() as u8).collect();
                l.iter().cycle().take(w * n).cloned().collect()
            }
            // the second half like the first, or its mirror image
            _ => {
                let h = w * n / 2;
                let mut a: Vec<u8> = (0..w * n).map(|_| r.next() as u8).collect();
                let mirror = r.below(2) == 0;
                for i in 0..h {
                    a[if mirror { w * n - 1 - i } else { i + h }] = a[i];
                }
                a
            }
        },
    }
}
fn conv(t: &str, u: &str, k: Kind, w: usize, n: usize, f: F1) {
    run1u("bits", t, u, 4 * lg().scale, &|r: &mut Rng| bits(r, k, w, n), f);
}
macro_rules! bits {
    ($s:ident, $d:ident, $k:ident, $w:literal, $n:literal, $uk:ident) => {
        conv(stringify!($s), stringify!($d), Kind::$k, $w, $n, &|a| {
            let r: $d = from_bytes::<$s>(a).into_bits();
            to_bytes(&r)
        });
        // the other direction of the same conversion, by its constructor
        conv(stringify!($s), stringify!($d), Kind::$k, $w, $n, &|a| {
            to_bytes(&<$d as FromBits<$s>>::from_bits(from_bytes::<$s>(a)))
        });
    };
}
include!("../gen/bits.rs");
macro_rules! swap {
    ($v:ident, $e:ident, $n:literal, $w:literal, $k:ident, $m:ident, $sm:ident) => {{
        fn go() {
            let t = stringify!($v);
            let g = |r: &mut Rng| bits(r, Kind::$k, $w, $n);
            let c = 24 * lg().scale;
            run1("swap_bytes", t, c, &g, &|a| to_bytes(&from_bytes::<$v>(a).swap_bytes()));
            run1("to_be", t, c, &g, &|a| to_bytes(&from_bytes::<$v>(a).to_be()));
            run1("to_le", t, c, &g, &|a| to_bytes(&from_bytes::<$v>(a).to_le()));
            run1("from_be", t, c, &g, &|a| to_bytes(&$v::from_be(from_bytes::<$v>(a))));
            run1("from_le", t, c, &g, &|a| to_bytes(&$v::from_le(from_bytes::<$v>(a))));
            // applying it twice, and undoing one with the other
            run1("same", t, c, &g, &|a| to_bytes(&from_bytes::<$v>(a).swap_bytes().swap_bytes()));
            run1("same", t, c, &g, &|a| to_bytes(&$v::from_be(from_bytes::<$v>(a).to_be())));
        }
        go();
    }};
}
/// memory image of a vector built lane by lane = image of the array of lanes
fn image(t: &str, k: Kind, w: usize, n: usize, f: F1) {
    run1("image", t, 12 * lg().scale, &|r: &mut Rng| bits(r, k, w, n), f);
}
macro_rules! lay {
    ($v:ident, $e:ident, $n:literal, $w:literal, $k:ident, $m:ident, $sm:ident) => {{
        fn go() {
            let t = stringify!($v);
            lg().ev("layout", t).i("size", std::mem::size_of::<$v>() as i64).i("lanes", $v::lanes() as i64).i("vl", <$v as SimdVector>::LANES as i64)
                .i("align", std::mem::align_of::<$v>() as i64).done();
            image(t, Kind::$k, $w, $n, &|a| to_bytes(&$v::from(from_bytes::<[$e; $n]>(a))));
            // lane i read through a pointer to the first lane
            image(t, Kind::$k, $w, $n, &|a| {
                let v = from_bytes::<$v>(a);
                let p = &v as *const $v as *const $e;
                (0..$n).flat_map(|i| to_bytes(unsafe { &*p.add(i) })).collect()
            });
        }
        go();
    }};
}
macro_rules! layp {
    ($v:ident, $q:ident, $n:literal, $m:ident, $us:ident, $is:ident) => {{
        fn go() {
            let t = stringify!($v);
            lg().ev("layout", t).i("size", std::mem::size_of::<$v<i32>>() as i64).i("lanes", $v::<i32>::lanes() as i64).i("vl", <$v<i32> as SimdVector>::LANES as i64)
                .i("align", std::mem::align_of::<$v<i32>>() as i64).done();
            image(t, Kind::P, 8, $n, &|a| to_bytes(&$v::<i32>::from(from_bytes::<[*$q i32; $n]>(a))));
        }
        go();
    }};
}
fn main() {
    start();
    list_bits();
    ints!(swap);
    alls!(lay);
    ptrs!(layp);
    stop();
}
