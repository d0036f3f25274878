//! C06: mask reductions, bitmask, select.
use harness::*;
use packed_simd::*;

fn code(all: bool, any: bool, none: bool) -> u8 {
    all as u8 + 2 * (any as u8) + 4 * (none as u8)
}
/// lane-bit number -> mask image
fn image(k: u64, w: usize, n: usize) -> Vec<u8> {
    (0..n).flat_map(|i| vec![if k >> i & 1 == 1 { 255u8 } else { 0 }; w]).collect()
}
fn reductions(t: &str, w: usize, n: usize, f: &dyn Fn(&[u8]) -> u8) {
    if n <= 16 {
        // every mask
        let total = 1u64 << n;
        let step = total.min(256);
        let mut k = 0;
        while k < total {
            let r = catch(|| (k..k + step).map(|j| f(&image(j, w, n))).collect::<Vec<u8>>());
            lg().ev("mredr", t).i("k", k as i64).r(r);
            k += step;
        }
    } else {
        let full = if n == 64 { !0u64 } else { (1u64 << n) - 1 };
        let mut ks = vec![0, full];
        for i in 0..n {
            ks.push(1 << i);
            ks.push(full ^ (1 << i));
            ks.push(full >> i);
            ks.push((full << i) & full);
        }
        for i in 0..n / 8 {
            ks.push(255 << (8 * i));
            ks.push(full & !(255 << (8 * i)));
        }
        let mut r = rng("mred", t, "");
        for _ in 0..64 * lg().scale {
            let (a, b, c) = (r.next(), r.next(), r.next());
            ks.push(a & full);
            ks.push(a & b & c & full);
            ks.push((a | b | c) & full);
            ks.push((1 << r.below(n)) | (1 << r.below(n)));
        }
        for k in ks {
            let a = image(k, w, n);
            let res = catch(|| vec![f(&a)]);
            lg().ev("mred", t).b("a", &a).r(res);
        }
    }
}
macro_rules! red {
    ($v:ident, $e:ident, $n:literal, $w:literal, $k:ident, $m:ident, $sm:ident) => {{
        fn go() {
            let t = stringify!($v);
            reductions(t, $w, $n, &|a| {
                let m = from_bytes::<$v>(a);
                code(m.all(), m.any(), m.none())
            });
            run1("mext", t, 8 * lg().scale, &|r: &mut Rng| gen_mask($w, $n, r), &|a| {
                let m = from_bytes::<$v>(a);
                (0..$n).map(|i| m.extract(i) as u8).collect()
            });
            for &x in &[false, true] {
                let res = catch(|| to_bytes(&$v::splat(x)));
                lg().ev("msplat", t).b("a", &bb(x)).r(res);
                let (a, b) = ($sm::new(x), bb(x));
                lg().ev("snew", stringify!($sm)).i("w", $w).b("a", &b).b("b", &b).b("s", &[]).r(Some(to_bytes(&a)));
                lg().ev("stest", stringify!($sm)).i("w", $w).b("a", &b).b("b", &b).b("s", &[]).r(Some(bb(a.test())));
            }
        }
        go();
    }};
}
macro_rules! bm {
    ($v:ident, $e:ident, $n:literal, $w:literal, $k:ident, $m:ident, $sm:ident) => {{
        fn go() {
            let t = stringify!($v);
            // lanes whose top bit is set or clear with arbitrary other bits
            let g = |r: &mut Rng| {
                let mut v = gen_vec(r, Kind::$k, $w, $n);
                if Kind::$k == Kind::M {
                    return gen_mask($w, $n, r);
                }
                let p = gen_mask(1, $n, r);
                if r.below(2) == 0 {
                    for i in 0..$n {
                        v[i * $w + $w - 1] = (v[i * $w + $w - 1] & 127) | (p[i] & 128);
                    }
                }
                v
            };
            run1("bitmask", t, (16 + $n / 2) * lg().scale, &g, &|a| to_bytes(&from_bytes::<$v>(a).bitmask()));
        }
        go();
    }};
}
fn select(mt: &str, vt: &str, mw: usize, k: Kind, w: usize, n: usize, f: F3) {
    let mut r = rng("select", mt, vt);
    for c in 0..(n + 3).max(3 * lg().scale) {
        let mut m = gen_mask(mw, n, &mut r);
        if c < n {
            // each lane in turn alone, or alone missing
            let one = r.below(2) == 0;
            m = vec![if one { 0 } else { 255 }; mw * n];
            set_lane(&mut m, mw, c, if one { mask_w(mw) } else { 0 });
        }
        let a = any_bits(&mut r, k, w, n);
        let b = any_bits(&mut r, k, w, n);
        let res = catch(|| f(&m, &a, &b));
        lg().ev("select", mt).s("u", vt).b("a", &m).b("b", &a).b("c", &b).r(res);
    }
}
/// select moves bits: floats of any pattern
fn any_bits(r: &mut Rng, k: Kind, w: usize, n: usize) -> Vec<u8> {
    match k {
        Kind::F if r.below(2) == 0 => (0..w * n).map(|_| r.next() as u8).collect(),
        _ => gen_vec(r, k, w, n),
    }
}
macro_rules! sel {
    ($m:ident, $v:ident, $mw:literal, $k:ident, $w:literal, $n:literal) => {
        select(stringify!($m), stringify!($v), $mw, Kind::$k, $w, $n, &|m, a, b| {
            to_bytes(&from_bytes::<$m>(m).select(from_bytes::<$v>(a), from_bytes::<$v>(b)))
        });
    };
}
macro_rules! selp {
    ($m:ident $v:ident $mw:literal $n:literal) => {
        select(stringify!($m), stringify!($v), $mw, Kind::P, 8, $n, &|m, a, b| {
            to_bytes(&from_bytes::<$m>(m).select(from_bytes::<$v<u16>>(a), from_bytes::<$v<u16>>(b)))
        });
    };
}
include!("../gen/select.rs");
fn selects() {
    list_select();
    selp!(msizex2 cptrx2 8 2);
    selp!(msizex4 cptrx4 8 4);
    selp!(msizex8 cptrx8 8 8);
    selp!(msizex2 mptrx2 8 2);
    selp!(m32x4 mptrx4 4 4);
    selp!(m8x8 mptrx8 1 8);
}
fn main() {
    start();
    masks!(red);
    masks!(bm);
    ints!(bm);
    selects();
    stop();
}
