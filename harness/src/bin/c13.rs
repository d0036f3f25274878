//! C13: numeric conversions.
use harness::*;
use packed_simd::*;

/// Source lanes for which the conversion is specified.
fn gen(r: &mut Rng, k: Kind, w: usize, n: usize, uk: Kind, uw: usize) -> Vec<u8> {
    let mut v = vec![];
    if k == Kind::M {
        return gen_mask(w, n, r);
    }
    for _ in 0..n {
        let x = match k {
            Kind::F if uk == Kind::I || uk == Kind::U => fit(r, w, uk, uw),
            Kind::F if uk == Kind::F && uw < w => narrowable(r),
            Kind::F => gen_float(r, w),
            // integers with ties for the target's precision
            _ if uk == Kind::F && r.below(3) == 0 => {
                let p = if uw == 4 { 24 } else { 53 };
                let bits = 8 * w;
                if bits <= p + 2 { gen_int(r, w) } else {
                    let sh = 1 + r.below(bits - p - 1);
                    let m = (1u128 << (p - 1)) | (r.u128() & ((1u128 << (p - 1)) - 1));
                    let half = 1u128 << (sh - 1);
                    let y = (m << sh) | [0, half, half - 1, half + 1, (1 << sh) - 1][r.below(5)];
                    (if r.below(2) == 0 { y } else { y.wrapping_neg() }) & mask_w(w)
                }
            }
            _ => gen_int(r, w),
        };
        put(&mut v, x, w);
    }
    v
}
fn enc(x: f64, w: usize) -> u128 {
    if w == 4 { (x as f32).to_bits() as u128 } else { x.to_bits() as u128 }
}
fn dec(x: u128, w: usize) -> f64 {
    if w == 4 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x as u64) }
}
/// a float whose truncation fits the target integer
fn fit(r: &mut Rng, w: usize, uk: Kind, uw: usize) -> u128 {
    let bits = (8 * uw) as i32;
    let (lo, hi) = if uk == Kind::I { (-(2f64.powi(bits - 1)), 2f64.powi(bits - 1)) } else { (0.0, 2f64.powi(bits)) };
    loop {
        let x = match r.below(6) {
            0 => (r.below(600) as f64 - 300.0) / 4.0,
            1 => { let e = r.below(bits as usize + 1) as i32; let m = 1.0 + r.below(1 << 20) as f64 / (1 << 20) as f64; m * 2f64.powi(e) * if r.below(2) == 0 { 1.0 } else { -1.0 } }
            2 => hi - [0.5, 1.0, 2.0, 1.5, 0.25][r.below(5)],
            3 => lo - [0.5, 0.0, -1.0, 0.75, -0.5][r.below(5)],
            4 => dec(gen_float(r, w), w),
            _ => -(r.below(100) as f64) / 101.0,
        };
        let e = enc(x, w);
        let y = dec(e, w);
        if !y.is_nan() && y.trunc() >= lo && y.trunc() < hi {
            return e;
        }
    }
}
/// f64 values around the f32 grid: ties, overflow, subnormals
fn narrowable(r: &mut Rng) -> u128 {
    if r.below(3) == 0 {
        return gen_float(r, 8);
    }
    let base = f32::from_bits(quiet(r.u128() & 0xffff_ffff, 4) as u32) as f64;
    let b = base.to_bits();
    let half = 1u64 << 28;
    let y = match r.below(6) {
        0 => b,
        1 => b + half,
        2 => b + half - 1,
        3 => b + half + 1,
        4 => b.wrapping_sub(half),
        _ => b ^ (r.next() & 0x1fff_ffff),
    };
    quiet(y as u128, 8)
}
fn conv(op: &str, t: &str, u: &str, k: Kind, w: usize, n: usize, uk: Kind, uw: usize, f: F1) {
    let p = pool(&format!("{:?}{}{:?}{}", k, w, uk, uw), &|| {
        let mut r = Rng::new(lg().seed, &format!("c13{:?}{}{:?}{}", k, w, uk, uw));
        if k == Kind::M {
            return Pool::single(&[0, mask_w(w)]);
        }
        let c = if deep() { 20000 } else { 5000 };
        let mut v: Vec<u128> = vec![];
        if k != Kind::F && (w == 1 || (w == 2 && deep())) {
            v = (0..1 << (8 * w)).collect();
        } else {
            if k != Kind::F {
                v = int_edges(w);
            } else if uk == Kind::F || uk == Kind::M {
                v = float_edges(w);
            }
            while v.len() < c {
                v.push(lane(&gen(&mut r, k, w, 1, uk, uw), w, 0));
            }
            v.sort();
            v.dedup();
        }
        Pool::single(&v)
    });
    let o = LaneOp { op, k, w: [w, 0, 0], u: Some((uk, uw)), rw: uw, z: 0, tag: "" };
    sweep(&o, t, "vv", n, w, p, 2, &|a, _, _| f(a));
    let c = core::cmp::max(2, 12 / n) * lg().scale;
    run1u(op, t, u, c, &|r: &mut Rng| gen(r, k, w, n, uk, uw), f);
}
macro_rules! cast {
    ($s:ident, $d:ident, $k:ident, $w:literal, $n:literal, $uk:ident, $uw:literal) => {
        conv("cast", stringify!($s), stringify!($d), Kind::$k, $w, $n, Kind::$uk, $uw, &|a| {
            let r: $d = from_bytes::<$s>(a).cast();
            to_bytes(&r)
        });
    };
}
macro_rules! from {
    ($s:ident, $d:ident, $k:ident, $w:literal, $n:literal, $uk:ident, $uw:literal) => {
        conv("from", stringify!($s), stringify!($d), Kind::$k, $w, $n, Kind::$uk, $uw, &|a| {
            let r: $d = from_bytes::<$s>(a).into();
            to_bytes(&r)
        });
    };
}
include!("../gen/cast.rs");
include!("../gen/from.rs");
fn main() {
    start();
    list_cast();
    list_from();
    stop();
}
