//! C17: arithmetic on pointer vectors.
use harness::*;
use packed_simd::*;

const EDGE: [u64; 12] = [0, 1, 2, 7, 8, !0, !0 - 7, 1 << 63, (1 << 63) - 1, (1 << 63) + 5, 1 << 62, 0x5555_5555_5555_5555];
fn word(r: &mut Rng) -> u64 {
    match r.below(5) {
        0 => EDGE[r.below(EDGE.len())],
        1 => r.below(4096) as u64,
        2 => (r.below(4096) as u64).wrapping_neg(),
        3 => 0x7fff_0000_0000 + r.below(1 << 20) as u64,
        _ => r.next() >> r.below(64),
    }
}
/// wrapping forms: anything
fn any(r: &mut Rng, n: usize) -> (Vec<u8>, Vec<u8>) {
    let mut v = (vec![], vec![]);
    for _ in 0..n {
        put(&mut v.0, word(r) as u128, 8);
        put(&mut v.1, word(r) as u128, 8);
    }
    v
}
/// the other forms: within one object - address and count in range; `neg`: counts may be negative
fn object(r: &mut Rng, n: usize, z: usize, neg: bool, sub: bool, ptr: bool) -> (Vec<u8>, Vec<u8>) {
    let mut v = (vec![], vec![]);
    for _ in 0..n {
        let base = 0x1000_0000_0000u64 + 0x10_0000 * r.below(1000) as u64;
        let (i, j) = (r.below(1000) as u64, r.below(1000) as u64);
        // from element i to element j
        let at = base + i * z as u64;
        let c = if ptr {
            base + j * z as u64
        } else if neg {
            j.wrapping_sub(i)
        } else if sub {
            r.below(i as usize + 1) as u64
        } else {
            j
        };
        put(&mut v.0, at as u128, 8);
        put(&mut v.1, c as u128, 8);
    }
    v
}
fn go(op: &str, f: &str, t: &str, z: usize, n: usize, g: &dyn Fn(&mut Rng, usize) -> (Vec<u8>, Vec<u8>), h: F2) {
    let p = pool(&format!("{}{}{}", op, f, z), &|| {
        let mut r = Rng::new(lg().seed, &format!("c17{}{}{}", op, f, z));
        let mut v: Vec<[u128; 3]> = vec![];
        if f == "w" {
            for &x in EDGE.iter() {
                for &y in EDGE.iter() {
                    v.push([x as u128, y as u128, 0]);
                }
            }
        }
        while v.len() < if deep() { 8000 } else { 1200 } {
            let (a, b) = g(&mut r, 1);
            v.push([lane(&a, 8, 0), lane(&b, 8, 0), 0]);
        }
        Pool::list(v)
    });
    let o = LaneOp { op, k: Kind::P, w: [8, 8, 0], u: None, rw: 8, z, tag: f };
    sweep(&o, t, "vv", n, 8, p, 4, &|a, b, _| h(a, b));
    let mut r = rng(op, t, &format!("{}{}", f, z));
    for _ in 0..core::cmp::max(2, 8 / n) * lg().scale {
        let (a, b) = g(&mut r, n);
        let res = catch(|| h(&a, &b));
        lg().ev(op, t).s("f", f).i("z", z as i64).b("a", &a).b("b", &b).r(res);
    }
}
macro_rules! ptr {
    ($v:ident, $c:ident, $n:tt, $m:ident, $us:ident, $is:ident) => {{
        fn run() {
            ptr!(@ $v, $n, $us, $is, u8, 1);
            ptr!(@ $v, $n, $us, $is, u16, 2);
            ptr!(@ $v, $n, $us, $is, [u8; 3], 3);
            ptr!(@ $v, $n, $us, $is, f32, 4);
            ptr!(@ $v, $n, $us, $is, u64, 8);
            ptr!(@ $v, $n, $us, $is, [u16; 5], 10);
            ptr!(@ $v, $n, $us, $is, [u64; 3], 24);
            ptr!(@ $v, $n, $us, $is, [u8; 4096], 4096);
            let t = stringify!($v);
            run1("is_null", t, 16 * lg().scale, &|r: &mut Rng| gen_vec(r, Kind::P, 8, $n), &|a| {
                to_bytes::<$m>(&from_bytes::<$v<u64>>(a).is_null())
            });
            let res = catch(|| to_bytes::<$m>(&$v::<u64>::null().is_null()));
            lg().ev("is_null", t).s("f", "vv").b("a", &to_bytes(&$v::<u64>::null())).b("b", &[]).r(res);
            lg().ev("image", t).b("a", &vec![0u8; 8 * $n]).r(Some(to_bytes(&$v::<u64>::null())));
        }
        run();
    }};
    (@ $v:ident, $n:tt, $us:ident, $is:ident, $T:ty, $z:tt) => {
        let t = stringify!($v);
        assert_eq!(core::mem::size_of::<$T>(), $z);
        let p = |b: &[u8]| from_bytes::<$v<$T>>(b);
        let i = |b: &[u8]| from_bytes::<$is>(b);
        let u = |b: &[u8]| from_bytes::<$us>(b);
        go("p_offset", "w", t, $z, $n, &any, &|a, b| to_bytes(&p(a).wrapping_offset(i(b))));
        go("p_add", "w", t, $z, $n, &any, &|a, b| to_bytes(&p(a).wrapping_add(u(b))));
        go("p_sub", "w", t, $z, $n, &any, &|a, b| to_bytes(&p(a).wrapping_sub(u(b))));
        go("p_offset_from", "w", t, $z, $n, &any, &|a, b| to_bytes::<$is>(&p(a).wrapping_offset_from(p(b))));
        go("p_offset", "u", t, $z, $n, &|r, n| object(r, n, $z, true, false, false), &|a, b| to_bytes(&unsafe { p(a).offset(i(b)) }));
        go("p_add", "u", t, $z, $n, &|r, n| object(r, n, $z, false, false, false), &|a, b| to_bytes(&unsafe { p(a).add(u(b)) }));
        go("p_sub", "u", t, $z, $n, &|r, n| object(r, n, $z, false, true, false), &|a, b| to_bytes(&unsafe { p(a).sub(u(b)) }));
        go("p_offset_from", "u", t, $z, $n, &|r, n| object(r, n, $z, false, false, true), &|a, b| to_bytes::<$is>(&unsafe { p(a).offset_from(p(b)) }));
    };
}
fn main() {
    start();
    ptrs!(ptr);
    stop();
}
