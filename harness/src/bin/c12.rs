//! C12: shuffles.
use harness::*;
use packed_simd::*;

fn bits(r: &mut Rng, k: Kind, w: usize, n: usize) -> Vec<u8> {
    match k {
        Kind::M => gen_mask(w, n, r),
        _ => (0..w * n).map(|_| r.next() as u8).collect(),
    }
}
/// which argument expressions have been evaluated, in which order
static mut SEEN: Vec<i64> = vec![];
fn seen(i: i64) {
    unsafe { SEEN.push(i) }
}
fn shuffle(t: &str, u: &str, k: Kind, w: usize, n: usize, x: &[i64], two: bool, f: F2) {
    let (t, u) = (t.split('<').next().unwrap(), u.split('<').next().unwrap());
    let mut r = rng("shuffle", t, &format!("{}{:?}", u, x));
    let reps = if k == Kind::M { 5 } else { 1 };
    for _ in 0..reps * lg().scale {
        let a = bits(&mut r, k, w, n);
        let b = if two { bits(&mut r, k, w, n) } else { a.clone() };
        unsafe { SEEN.clear() };
        let res = catch(|| f(&a, &b));
        let s = unsafe { SEEN.clone() };
        lg().ev("shuffle", t).s("u", u).ints("x", x).ints("seen", &s).i("two", two as i64).b("a", &a).b("b", &b).r(res);
    }
}
macro_rules! shuf {
    ($v:ty, $o:ty, $k:ident, $w:literal, $n:literal, two, [$($x:literal),*]) => {
        shuffle(stringify!($v), stringify!($o), Kind::$k, $w, $n, &[$($x),*], true, &|a, b| {
            let r: $o = shuffle!({ seen(1); from_bytes::<$v>(a) }, { seen(2); from_bytes::<$v>(b) }, [$($x),*]);
            to_bytes(&r)
        });
    };
    ($v:ty, $o:ty, $k:ident, $w:literal, $n:literal, one, [$($x:literal),*]) => {
        shuffle(stringify!($v), stringify!($o), Kind::$k, $w, $n, &[$($x),*], false, &|a, _| {
            let r: $o = shuffle!({ seen(1); from_bytes::<$v>(a) }, [$($x),*]);
            to_bytes(&r)
        });
    };
}
include!("../gen/shuffle.rs");
include!("../gen/shufptr.rs");
/// indices that are constant expressions, arguments with the names the macro uses
fn consts() {
    const A: u32 = 2;
    const B: [u32; 4] = [7, 4, 1, 6];
    const fn c(x: u32) -> u32 {
        (x * 5 + 3) % 8
    }
    shuffle("i32x4", "i32x4", Kind::I, 4, 4, &[2, 3, 5, 1], true, &|v, v0| {
        seen(1);
        seen(2);
        let (v, v0) = (from_bytes::<i32x4>(v), from_bytes::<i32x4>(v0));
        let r: i32x4 = shuffle!(v, v0, [A, A + 1, 7 - A, { 1 }]);
        to_bytes(&r)
    });
    shuffle("f64x4", "f64x4", Kind::F, 8, 4, &[7, 4, 1, 6], true, &|v, v0| {
        seen(1);
        seen(2);
        let (v1, v0) = (from_bytes::<f64x4>(v0), from_bytes::<f64x4>(v));
        let r: f64x4 = shuffle!(v0, v1, [B[0], B[1], B[2], B[3]]);
        to_bytes(&r)
    });
    shuffle("u8x8", "u8x8", Kind::U, 1, 8, &[3, 0, 5, 2, 7, 4, 1, 6], false, &|v, _| {
        seen(1);
        let v = from_bytes::<u8x8>(v);
        let r: u8x8 = shuffle!(v, [c(0), c(1), c(2), c(3), c(4), c(5), c(6), c(7)]);
        to_bytes(&r)
    });
    // a shuffle of a shuffle
    shuffle("u16x4", "u16x2", Kind::U, 2, 4, &[2, 0], false, &|v, _| {
        seen(1);
        let v = from_bytes::<u16x4>(v);
        let w: u16x4 = shuffle!(v, [1, 0, 3, 2]);
        let v: u16x4 = shuffle!(w, v, [4, 0, 6, 2]);
        let r: u16x2 = shuffle!(v, [2, 0]);
        to_bytes(&r)
    });
}
fn stat() {
    consts();
    list_shuffle();
    list_shufptr();
}
fn indices(r: &mut Rng, w: usize, n: usize, j: usize) -> Vec<u8> {
    let mut v = vec![];
    let s = r.below(n);
    for i in 0..n {
        let x = match j {
            0 => i,
            1 => n - 1 - i,
            2 => s,
            3 => (i + s) % n,
            4 => i ^ (s & (n - 1)),
            // only the lower, only the upper half; the halves exchanged, interleaved
            5 => s / 2 + (i & 1) * (n / 4),
            6 => n / 2 + r.below((n + 1) / 2).min(n - 1 - n / 2),
            7 => (i + n / 2) % n,
            8 => (2 * i) % n + (2 * i) / n,
            9 => i / 2 + (i & 1) * (n / 2),
            10 => if i == s { n - 1 - i } else { i },
            11 => if i < n / 2 { i } else { r.below(n) },
            12 => i & !1,
            13 => (i | 1) & (n - 1),
            _ => r.below(n),
        };
        put(&mut v, x as u128, w);
    }
    v
}
fn dynamic(t: &str, k: Kind, w: usize, n: usize, f: F2) {
    let mut r = rng("shuffle1_dyn", t, "");
    for j in 0..(24 + 64 / n) * lg().scale {
        let a = bits(&mut r, k, w, n);
        let b = indices(&mut r, w, n, j % 24);
        let res = catch(|| f(&a, &b));
        lg().ev("shuffle1_dyn", t).b("a", &a).b("b", &b).r(res);
    }
}
macro_rules! dy {
    ($v:ident $i:ident $k:ident $w:literal $n:literal) => {
        dynamic(stringify!($v), Kind::$k, $w, $n, &|a, b| to_bytes(&from_bytes::<$v>(a).shuffle1_dyn(from_bytes::<$i>(b))));
    };
}
macro_rules! dyp {
    ($v:ident, $q:ident, $n:literal, $m:ident, $us:ident, $is:ident) => {{
        dynamic(stringify!($v), Kind::P, 8, $n, &|a, b| to_bytes(&from_bytes::<$v<i32>>(a).shuffle1_dyn(from_bytes::<$us>(b))));
    }};
}
include!("../gen/dyn.rs");
fn dyns() {
    list_dyn();
    ptrs!(dyp);
}
fn main() {
    start();
    stat();
    dyns();
    stop();
}
