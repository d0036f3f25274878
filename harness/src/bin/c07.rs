//! C07: integer and mask reductions, Sum / Product of iterators.
use harness::*;
use packed_simd::*;

macro_rules! red {
    ($v:ident, $e:ident, $n:literal, $w:literal, $k:ident, $m:ident, $sm:ident) => {{
        fn go() {
            let t = stringify!($v);
            let c = lg().reps($n, 96).max(3 * $n);
            let g = |r: &mut Rng| gen_red(r, Kind::$k, $w, $n);
            run1("wsum", t, c, &g, &|a| to_bytes::<$e>(&from_bytes::<$v>(a).wrapping_sum()));
            run1("wprod", t, c, &|r: &mut Rng| gen_prod(r, Kind::$k, $w, $n), &|a| to_bytes::<$e>(&from_bytes::<$v>(a).wrapping_product()));
            run1("rand", t, c, &g, &|a| to_bytes::<$e>(&from_bytes::<$v>(a).and()));
            run1("ror", t, c, &g, &|a| to_bytes::<$e>(&from_bytes::<$v>(a).or()));
            run1("rxor", t, c, &g, &|a| to_bytes::<$e>(&from_bytes::<$v>(a).xor()));
            run1("rmin", t, c, &g, &|a| to_bytes::<$e>(&from_bytes::<$v>(a).min_element()));
            run1("rmax", t, c, &g, &|a| to_bytes::<$e>(&from_bytes::<$v>(a).max_element()));
            let gi = |r: &mut Rng| { let k = if r.below(6) == 0 { 5 + r.below(1 + 400 / ($w * $n)) } else { r.below(5) }; let mut v = vec![]; for _ in 0..k { v.extend(gen_prod(r, Kind::$k, $w, $n)); } v };
            let split = |a: &[u8]| -> Vec<$v> { a.chunks($w * $n).map(|c| from_bytes::<$v>(c)).collect() };
            let ci = (c / 4).max(5);
            run1("isum", t, ci, &gi, &|a| to_bytes(&split(a).into_iter().sum::<$v>()));
            run1("isum", t, ci, &gi, &|a| to_bytes(&split(a).iter().sum::<$v>()));
            // iterators that do not know their length
            run1("isum", t, ci / 2 + 1, &gi, &|a| { let v = split(a); let mut i = 0; to_bytes(&core::iter::from_fn(|| { i += 1; v.get(i - 1).copied() }).sum::<$v>()) });
            run1("isum", t, ci / 2 + 1, &gi, &|a| to_bytes(&split(a).iter().filter(|_| yes()).sum::<$v>()));
            run1("iprod", t, ci, &gi, &|a| to_bytes(&split(a).into_iter().product::<$v>()));
            run1("iprod", t, ci, &gi, &|a| to_bytes(&split(a).iter().product::<$v>()));
            // iterators that do not know their length
            run1("iprod", t, ci / 2 + 1, &gi, &|a| { let v = split(a); let mut i = 0; to_bytes(&core::iter::from_fn(|| { i += 1; v.get(i - 1).copied() }).product::<$v>()) });
            run1("iprod", t, ci / 2 + 1, &gi, &|a| to_bytes(&split(a).iter().filter(|_| yes()).product::<$v>()));
        }
        go();
    }};
}
/// lanes that matter: mostly the identity with one or two special lanes, or anything
fn gen_red(r: &mut Rng, k: Kind, w: usize, n: usize) -> Vec<u8> {
    if r.below(3) == 0 {
        return gen_vec(r, k, w, n);
    }
    let base = [0u128, mask_w(w), 1, 1u128 << (8 * w - 1)][r.below(4)];
    let mut v = vec![];
    for _ in 0..n {
        put(&mut v, base, w);
    }
    // every lane in turn
    let c = cyc();
    let x = gen_int(r, w);
    set_lane(&mut v, w, c % n, x);
    if r.below(2) == 0 {
        let y = if r.below(2) == 0 { x } else { gen_int(r, w) };
        set_lane(&mut v, w, r.below(n), y);
    }
    v
}
/// odd lanes, so that a product does not vanish
fn gen_prod(r: &mut Rng, k: Kind, w: usize, n: usize) -> Vec<u8> {
    let mut v = gen_vec(r, k, w, n);
    if r.below(6) != 0 {
        for i in 0..n {
            v[i * w] |= 1;
        }
    }
    v
}
macro_rules! mred {
    ($v:ident, $e:ident, $n:literal, $w:literal, $k:ident, $m:ident, $sm:ident) => {{
        fn go() {
            let t = stringify!($v);
            let c = lg().reps($n, 128).max(4 * $n);
            let g = |r: &mut Rng| {
                let c = cyc();
                let mut v = gen_mask($w, $n, r);
                let m = mask_w($w);
                match c / $n {
                    0 => { v = vec![0; $w * $n]; set_lane(&mut v, $w, c % $n, m); }
                    1 => { v = vec![255; $w * $n]; set_lane(&mut v, $w, c % $n, 0); }
                    2 => { v = vec![0; $w * $n]; for i in 0..c % $n { set_lane(&mut v, $w, i, m); } }
                    _ => {}
                }
                v
            };
            run1("rand", t, c, &g, &|a| bb(from_bytes::<$v>(a).and()));
            run1("ror", t, c, &g, &|a| bb(from_bytes::<$v>(a).or()));
            run1("rxor", t, c, &g, &|a| bb(from_bytes::<$v>(a).xor()));
        }
        go();
    }};
}
fn main() {
    start();
    ints!(red);
    masks!(mred);
    stop();
}
