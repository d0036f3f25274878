//! C04: lane-wise comparisons and classifications.
use harness::*;
use packed_simd::*;

fn pairs(k: Kind, w: usize, n: usize) -> impl Fn(&mut Rng) -> (Vec<u8>, Vec<u8>) {
    move |r| {
        let a = gen_vec(r, k, w, n);
        let b = relate(r, &a, k, w);
        (a, b)
    }
}
fn go2(op: &str, t: &str, k: Kind, w: usize, n: usize, count: usize, f: F2) {
    let p = pool(&format!("{}/{:?}", w, if k == Kind::F || k == Kind::M { k } else { Kind::U }), &|| {
        let m = mask_w(w);
        let (c, x) = if deep() { (150, 20000) } else { (90, 6000) };
        match k {
            Kind::M => Pool::grid(&[0, m], &[0, m], &[], &|_, _| true),
            Kind::F => { let v = floats_of(w, 80, "c04"); Pool::grid(&v, &v, &close_floats(w, x, "c04"), &|_, _| true) }
            _ => { let v = ints_of(w, c, "c04"); Pool::grid(&v, &v, &if w == 1 { vec![] } else { close_pairs(w, x, "c04") }, &|_, _| true) }
        }
    });
    let o = LaneOp { op, k, w: [w, w, 0], u: None, rw: w, z: 0, tag: "" };
    sweep(&o, t, "vv", n, w, p, 4, &|a, b, _| f(a, b));
    run2(op, t, "vv", count, &pairs(k, w, n), f);
}
fn class1(op: &str, t: &str, k: Kind, w: usize, n: usize, f: F1) {
    let p = pool(&format!("class{}/{:?}", w, k), &|| {
        let c = if deep() { 40000 } else { 3000 };
        if k == Kind::F { Pool::single(&floats_of(w, c, "class")) } else { Pool::single(&ints_of(w, c.min(1000), "class")) }
    });
    let o = LaneOp { op, k, w: [w, 0, 0], u: None, rw: w, z: 0, tag: "" };
    sweep(&o, t, "vv", n, w, p, 4, &|a, _, _| f(a));
    run1(op, t, lg().reps(n, 32), &|r: &mut Rng| gen_vec(r, k, w, n), f);
}
macro_rules! cmps {
    ($v:ty, $t:expr, $n:literal, $w:literal, $k:ident) => {
        let c = lg().reps($n, 24);
        go2("veq", $t, Kind::$k, $w, $n, c, &|a, b| to_bytes(&from_bytes::<$v>(a).eq(from_bytes::<$v>(b))));
        go2("vne", $t, Kind::$k, $w, $n, c, &|a, b| to_bytes(&from_bytes::<$v>(a).ne(from_bytes::<$v>(b))));
        go2("vlt", $t, Kind::$k, $w, $n, c, &|a, b| to_bytes(&from_bytes::<$v>(a).lt(from_bytes::<$v>(b))));
        go2("vle", $t, Kind::$k, $w, $n, c, &|a, b| to_bytes(&from_bytes::<$v>(a).le(from_bytes::<$v>(b))));
        go2("vgt", $t, Kind::$k, $w, $n, c, &|a, b| to_bytes(&from_bytes::<$v>(a).gt(from_bytes::<$v>(b))));
        go2("vge", $t, Kind::$k, $w, $n, c, &|a, b| to_bytes(&from_bytes::<$v>(a).ge(from_bytes::<$v>(b))));
    };
}
macro_rules! each {
    ($v:ident, $e:ident, $n:literal, $w:literal, $k:ident, $m:ident, $sm:ident) => {{
        fn go() {
            cmps!($v, stringify!($v), $n, $w, $k);
        }
        go();
    }};
}
macro_rules! class {
    ($v:ident, $e:ident, $n:literal, $w:literal, $k:ident, $m:ident, $sm:ident) => {{
        fn go() {
            let t = stringify!($v);
            class1("is_nan", t, Kind::F, $w, $n, &|a| to_bytes::<$m>(&from_bytes::<$v>(a).is_nan()));
            class1("is_infinite", t, Kind::F, $w, $n, &|a| to_bytes::<$m>(&from_bytes::<$v>(a).is_infinite()));
            class1("is_finite", t, Kind::F, $w, $n, &|a| to_bytes::<$m>(&from_bytes::<$v>(a).is_finite()));
        }
        go();
    }};
}
macro_rules! ptr {
    ($v:ident, $q:ident, $n:literal, $m:ident, $us:ident, $is:ident) => {{
        fn go<T: Copy>() {
            let t = stringify!($v);
            cmps!($v<T>, t, $n, 8, P);
            class1("is_null", t, Kind::P, 8, $n, &|a| to_bytes::<$m>(&from_bytes::<$v<T>>(a).is_null()));
        }
        go::<i32>();
        go::<u8>();
        go::<[u16; 3]>();
    }};
}
fn main() {
    start();
    alls!(each);
    floats!(class);
    ptrs!(ptr);
    stop();
}
