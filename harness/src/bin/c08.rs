//! C08: float reductions, Sum / Product of iterators.
use harness::*;
use packed_simd::*;

fn gen(r: &mut Rng, w: usize, n: usize) -> Vec<u8> {
    let one = if w == 4 { 1f32.to_bits() as u128 } else { 1f64.to_bits() as u128 };
    let sign = 1u128 << (8 * w - 1);
    let mut v = vec![];
    match r.below(6) {
        5 => {
            // NaN in all lanes but some, or a NaN among numbers
            let nan = if w == 4 { 0x7fc0_0000 } else { 0x7ff8_0000_0000_0000 };
            let most = r.below(2) == 0;
            let i = cyc() % n;
            for j in 0..n {
                let x = gen_float(r, w);
                put(&mut v, if (j == i) != most { nan } else { x }, w);
            }
        }
        0 => return gen_vec(r, Kind::F, w, n),
        1 => {
            // few special lanes in an otherwise plain vector
            let base = [0, sign, one][r.below(3)];
            for _ in 0..n {
                put(&mut v, base, w);
            }
            let x = gen_float(r, w);
            set_lane(&mut v, w, cyc() % n, x);
            if r.below(2) == 0 {
                let x = gen_float(r, w);
                set_lane(&mut v, w, r.below(n), x);
            }
        }
        2 => {
            // small integers: every partial result exact
            for _ in 0..n {
                let x = r.below(7) as f64 - 3.0;
                let b = if w == 4 { (x as f32).to_bits() as u128 } else { x.to_bits() as u128 };
                put(&mut v, b, w);
            }
        }
        _ => {
            // comparable magnitudes, no NaN: order of rounding matters
            for _ in 0..n {
                let b = if w == 4 {
                    let ex = 127 - 6 + r.below(13) as u32;
                    (((r.next() as u32) & 0x807f_ffff) | (ex << 23)) as u128
                } else {
                    let ex = 1023 - 6 + r.below(13) as u64;
                    ((r.next() & 0x800f_ffff_ffff_ffff) | (ex << 52)) as u128
                };
                put(&mut v, b, w);
            }
        }
    }
    v
}
macro_rules! red {
    ($v:ident, $e:ident, $n:literal, $w:literal, $k:ident, $m:ident, $sm:ident) => {{
        fn go() {
            let t = stringify!($v);
            let c = lg().reps($n, 512);
            let g = |r: &mut Rng| gen(r, $w, $n);
            run1("fsum", t, c, &g, &|a| to_bytes::<$e>(&from_bytes::<$v>(a).sum()));
            run1("fprod", t, c, &g, &|a| to_bytes::<$e>(&from_bytes::<$v>(a).product()));
            run1("rmin", t, 2 * c, &g, &|a| to_bytes::<$e>(&from_bytes::<$v>(a).min_element()));
            run1("rmax", t, 2 * c, &g, &|a| to_bytes::<$e>(&from_bytes::<$v>(a).max_element()));
            let gi = |r: &mut Rng| { let k = if r.below(6) == 0 { 5 + r.below(1 + 400 / ($w * $n)) } else { r.below(6) }; let mut v = vec![]; for _ in 0..k { v.extend(gen(r, $w, $n)); } v };
            let split = |a: &[u8]| -> Vec<$v> { a.chunks($w * $n).map(|c| from_bytes::<$v>(c)).collect() };
            run1("isum", t, c / 4, &gi, &|a| to_bytes(&split(a).into_iter().sum::<$v>()));
            run1("isum", t, c / 4, &gi, &|a| to_bytes(&split(a).iter().sum::<$v>()));
            // iterators that do not know their length
            run1("isum", t, c / 4 / 2 + 1, &gi, &|a| { let v = split(a); let mut i = 0; to_bytes(&core::iter::from_fn(|| { i += 1; v.get(i - 1).copied() }).sum::<$v>()) });
            run1("isum", t, c / 4 / 2 + 1, &gi, &|a| to_bytes(&split(a).iter().filter(|_| yes()).sum::<$v>()));
            run1("iprod", t, c / 4, &gi, &|a| to_bytes(&split(a).into_iter().product::<$v>()));
            run1("iprod", t, c / 4, &gi, &|a| to_bytes(&split(a).iter().product::<$v>()));
            // iterators that do not know their length
            run1("iprod", t, c / 4 / 2 + 1, &gi, &|a| { let v = split(a); let mut i = 0; to_bytes(&core::iter::from_fn(|| { i += 1; v.get(i - 1).copied() }).product::<$v>()) });
            run1("iprod", t, c / 4 / 2 + 1, &gi, &|a| to_bytes(&split(a).iter().filter(|_| yes()).product::<$v>()));
        }
        go();
    }};
}
fn main() {
    start();
    floats!(red);
    stop();
}
