//! C02: bitwise operators, shifts, rotates, mask logic.
use harness::*;
use packed_simd::*;

fn pair(k: Kind, w: usize, na: usize, nb: usize) -> impl Fn(&mut Rng) -> (Vec<u8>, Vec<u8>) {
    move |r| {
        let a = gen_vec(r, k, w, na);
        let b = if na == nb && r.below(3) == 0 { relate(r, &a, k, w) } else { gen_vec(r, k, w, nb) };
        (a, b)
    }
}
fn count(r: &mut Rng, bits: usize) -> u8 {
    (match r.below(6) {
        0 => 0,
        1 => bits - 1,
        2 => bits / 2,
        _ => r.below(bits),
    }) as u8
}
fn counts(r: &mut Rng, w: usize, n: usize) -> Vec<u8> {
    let mut v = vec![];
    let splat = if r.below(6) == 0 { Some(count(r, 8 * w)) } else { None };
    for _ in 0..n {
        let c = count(r, 8 * w);
        put(&mut v, splat.unwrap_or(c) as u128, w);
    }
    v
}
fn with_counts(k: Kind, w: usize, n: usize) -> impl Fn(&mut Rng) -> (Vec<u8>, Vec<u8>) {
    move |r| (gen_vec(r, k, w, n), counts(r, w, n))
}
fn with_scalar(k: Kind, w: usize, n: usize) -> impl Fn(&mut Rng) -> (Vec<u8>, Vec<u8>) {
    move |r| (gen_vec(r, k, w, n), counts(r, w, 1)[..1].iter().copied().chain([0u8, 0, 0].iter().copied()).collect())
}
// rotate counts: any lane value, often near multiples of the lane width
fn with_rot(k: Kind, w: usize, n: usize) -> impl Fn(&mut Rng) -> (Vec<u8>, Vec<u8>) {
    move |r| {
        let a = gen_vec(r, k, w, n);
        let mut v = vec![];
        for _ in 0..n {
            let x = match r.below(4) {
                0 => gen_int(r, w),
                1 => (r.below(4) * 8 * w + r.below(3)) as u128 & mask_w(w),
                2 => (0u128.wrapping_sub(r.below(8 * w + 2) as u128)) & mask_w(w),
                _ => r.below(8 * w) as u128,
            };
            put(&mut v, x, w);
        }
        (a, v)
    }
}
/// all lane operand pairs of the pool, then whole vectors from `g`
fn go2(op: &str, t: &str, form: &str, k: Kind, w: usize, n: usize, count: usize, g: &dyn Fn(&mut Rng) -> (Vec<u8>, Vec<u8>), f: F2) {
    let (c, x) = if deep() { (128, 6000) } else { (80, 3000) };
    let (class, k) = match op {
        "shl" | "shr" => ("sh", k),
        "rotl" | "rotr" => ("rot", k),
        "not" => ("not", k),
        _ => ("bit", if k == Kind::M { k } else { Kind::U }),
    };
    let p = pool(&format!("{}/{}/{}", w, class, k == Kind::M), &|| {
        let bits = 8 * w as u128;
        let m = mask_w(w);
        if k == Kind::M {
            return Pool::grid(&[0, m], &[0, m], &[], &|_, _| true);
        }
        let v = ints_of(w, c, "c02");
        match class {
            "sh" => Pool::grid(&v, &(0..bits).collect::<Vec<_>>(), &[], &|_, _| true),
            "rot" => {
                let mut n: Vec<u128> = if w == 1 { (0..256).collect() } else { (0..2 * bits).chain((1..bits + 2).step_by(7).map(|i| m - i + 1)).collect() };
                if w > 1 {
                    n.extend(int_edges(w));
                }
                n.sort();
                n.dedup();
                Pool::grid(&v[..if w == 1 { 256 } else { 40.min(v.len()) }], &n, &[], &|_, _| true)
            }
            "not" => Pool::single(&ints_of(w, 1000, "c02")),
            _ => Pool::grid(&v, &v, &if w == 1 { vec![] } else { close_pairs(w, x, "c02") }, &|_, _| true),
        }
    });
    let sw = match class { "sh" => 4, _ if k == Kind::M => 1, _ => w };
    let o = LaneOp { op, k, w: [w, if class == "not" { 0 } else { w }, 0], u: None, rw: w, z: 0, tag: "" };
    sweep(&o, t, form, n, sw, p, if form == "vv" { 4 } else { 1 }, &|a, b, _| f(a, b));
    run2(op, t, form, count, g, f);
}
macro_rules! bit {
    ($name:literal $op:tt $opa:tt $v:ident $e:ident $n:literal $w:literal $k:ident) => {
        let t = stringify!($v);
        let c = lg().reps($n, 32);
        let c2 = lg().reps($n, 12);
        go2($name, t, "vv", Kind::$k, $w, $n, c, &pair(Kind::$k, $w, $n, $n), &|a, b| to_bytes(&(from_bytes::<$v>(a) $op from_bytes::<$v>(b))));
        go2($name, t, "vs", Kind::$k, $w, $n, c2, &pair(Kind::$k, $w, $n, 1), &|a, b| to_bytes(&(from_bytes::<$v>(a) $op from_bytes::<$e>(b))));
        go2($name, t, "sv", Kind::$k, $w, $n, c2, &pair(Kind::$k, $w, 1, $n), &|a, b| to_bytes(&(from_bytes::<$e>(a) $op from_bytes::<$v>(b))));
        go2($name, t, "av", Kind::$k, $w, $n, c2, &pair(Kind::$k, $w, $n, $n), &|a, b| { let mut x = from_bytes::<$v>(a); x $opa from_bytes::<$v>(b); to_bytes(&x) });
        go2($name, t, "as", Kind::$k, $w, $n, c2, &pair(Kind::$k, $w, $n, 1), &|a, b| { let mut x = from_bytes::<$v>(a); x $opa from_bytes::<$e>(b); to_bytes(&x) });
    };
}
macro_rules! shift {
    ($name:literal $op:tt $opa:tt $v:ident $e:ident $n:literal $w:literal $k:ident) => {
        let t = stringify!($v);
        let c = lg().reps($n, 64);
        let c2 = lg().reps($n, 24);
        go2($name, t, "vv", Kind::$k, $w, $n, c, &with_counts(Kind::$k, $w, $n), &|a, b| to_bytes(&(from_bytes::<$v>(a) $op from_bytes::<$v>(b))));
        go2($name, t, "av", Kind::$k, $w, $n, c2, &with_counts(Kind::$k, $w, $n), &|a, b| { let mut x = from_bytes::<$v>(a); x $opa from_bytes::<$v>(b); to_bytes(&x) });
        go2($name, t, "vs", Kind::$k, $w, $n, c2, &with_scalar(Kind::$k, $w, $n), &|a, b| to_bytes(&(from_bytes::<$v>(a) $op from_bytes::<u32>(b))));
        go2($name, t, "as", Kind::$k, $w, $n, c2, &with_scalar(Kind::$k, $w, $n), &|a, b| { let mut x = from_bytes::<$v>(a); x $opa from_bytes::<u32>(b); to_bytes(&x) });
    };
}
macro_rules! int_ops {
    ($v:ident, $e:ident, $n:literal, $w:literal, $k:ident, $m:ident, $sm:ident) => {{
        fn go() {
            let t = stringify!($v);
            bit!("and" & &= $v $e $n $w $k);
            bit!("or" | |= $v $e $n $w $k);
            bit!("xor" ^ ^= $v $e $n $w $k);
            go2("not", t, "vv", Kind::$k, $w, $n, lg().reps($n, 32), &pair(Kind::$k, $w, $n, 0), &|a, _| to_bytes(&(!from_bytes::<$v>(a))));
            shift!("shl" << <<= $v $e $n $w $k);
            shift!("shr" >> >>= $v $e $n $w $k);
            let c = lg().reps($n, 128);
            go2("rotl", t, "vv", Kind::$k, $w, $n, c, &with_rot(Kind::$k, $w, $n), &|a, b| to_bytes(&from_bytes::<$v>(a).rotate_left(from_bytes::<$v>(b))));
            go2("rotr", t, "vv", Kind::$k, $w, $n, c, &with_rot(Kind::$k, $w, $n), &|a, b| to_bytes(&from_bytes::<$v>(a).rotate_right(from_bytes::<$v>(b))));
        }
        go();
    }};
}
fn mpair(w: usize, na: usize, nb: usize) -> impl Fn(&mut Rng) -> (Vec<u8>, Vec<u8>) {
    move |r| {
        let mut f = |n: usize| if n == 0 { bb(r.below(2) == 0) } else { gen_vec(r, Kind::M, w, n) };
        (f(na), f(nb))
    }
}
macro_rules! mbit {
    ($name:literal $op:tt $opa:tt $v:ident $n:literal $w:literal) => {
        let t = stringify!($v);
        let c = lg().reps($n, 64);
        let c2 = lg().reps($n, 24);
        go2($name, t, "vv", Kind::M, $w, $n, c, &mpair($w, $n, $n), &|a, b| to_bytes(&(from_bytes::<$v>(a) $op from_bytes::<$v>(b))));
        go2($name, t, "vs", Kind::M, $w, $n, c2, &mpair($w, $n, 0), &|a, b| to_bytes(&(from_bytes::<$v>(a) $op (b[0] & 1 == 1))));
        go2($name, t, "sv", Kind::M, $w, $n, c2, &mpair($w, 0, $n), &|a, b| to_bytes(&((a[0] & 1 == 1) $op from_bytes::<$v>(b))));
        go2($name, t, "av", Kind::M, $w, $n, c2, &mpair($w, $n, $n), &|a, b| { let mut x = from_bytes::<$v>(a); x $opa from_bytes::<$v>(b); to_bytes(&x) });
        go2($name, t, "as", Kind::M, $w, $n, c2, &mpair($w, $n, 0), &|a, b| { let mut x = from_bytes::<$v>(a); x $opa (b[0] & 1 == 1); to_bytes(&x) });
    };
}
macro_rules! mask_ops {
    ($v:ident, $e:ident, $n:literal, $w:literal, $k:ident, $m:ident, $sm:ident) => {{
        fn go() {
            mbit!("and" & &= $v $n $w);
            mbit!("or" | |= $v $n $w);
            mbit!("xor" ^ ^= $v $n $w);
            go2("not", stringify!($v), "vv", Kind::M, $w, $n, lg().reps($n, 64), &mpair($w, $n, 0), &|a, _| to_bytes(&(!from_bytes::<$v>(a))));
        }
        go();
    }};
}
fn main() {
    start();
    ints!(int_ops);
    masks!(mask_ops);
    stop();
}
