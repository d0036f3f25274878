//! C01: integer arithmetic, all operator forms.
use harness::*;
use packed_simd::*;

fn drive(op: &str, t: &str, form: &str, k: Kind, w: usize, n: usize, f: F2) {
    // every lane operand pair of the pool, in this type and form
    let divides = op == "div" || op == "rem";
    let class = if !divides { 0 } else if k == Kind::I { 1 } else { 2 };
    let p = pool(&format!("{}/{}", w, class), &|| {
        let (c, x) = match (deep(), w) { (false, 16) => (40, 400), (false, _) => (64, 1000), (true, 16) => (80, 4000), (true, _) => (160, 10000) };
        let v = ints_of(w, c, "c01");
        let (top, m) = (1u128 << (8 * w - 1), mask_w(w));
        Pool::grid(&v, &v, &if w == 1 { vec![] } else { close_pairs(w, x, "c01") }, &|a, b| class == 0 || (b != 0 && (class == 2 || a != top || b != m)))
    });
    let o = LaneOp { op, k, w: [w, w, 0], u: None, rw: w, z: 0, tag: "" };
    sweep(&o, t, form, n, w, p, if form == "vv" { 4 } else { 1 }, &|a, b, _| f(a, b));
    // whole vectors
    let lanes = if form == "vv" { 48 } else { 12 };
    let mut r = rng(op, t, form);
    for _ in 0..lg().reps(n, lanes) {
        let na = if form == "sv" { 1 } else { n };
        let nb = if form == "vs" || form == "as" { 1 } else { n };
        let mut a = gen_vec(&mut r, k, w, na);
        let mut b = if na == nb && r.below(3) == 0 { relate(&mut r, &a, k, w) } else { gen_vec(&mut r, k, w, nb) };
        if divides {
            fix_div(&mut a, &mut b, k, w);
        }
        let res = catch(|| f(&a, &b));
        lg().ev(op, t).s("f", form).b("a", &a).b("b", &b).r(res);
    }
}
macro_rules! one {
    ($name:literal $op:tt $opa:tt $v:ident $e:ident $n:literal $w:literal $k:ident) => {
        let t = stringify!($v);
        drive($name, t, "vv", Kind::$k, $w, $n, &|a, b| to_bytes(&(from_bytes::<$v>(a) $op from_bytes::<$v>(b))));
        drive($name, t, "vs", Kind::$k, $w, $n, &|a, b| to_bytes(&(from_bytes::<$v>(a) $op from_bytes::<$e>(b))));
        drive($name, t, "sv", Kind::$k, $w, $n, &|a, b| to_bytes(&(from_bytes::<$e>(a) $op from_bytes::<$v>(b))));
        drive($name, t, "av", Kind::$k, $w, $n, &|a, b| { let mut x = from_bytes::<$v>(a); x $opa from_bytes::<$v>(b); to_bytes(&x) });
        drive($name, t, "as", Kind::$k, $w, $n, &|a, b| { let mut x = from_bytes::<$v>(a); x $opa from_bytes::<$e>(b); to_bytes(&x) });
    };
}
macro_rules! all_ops {
    ($v:ident, $e:ident, $n:literal, $w:literal, $k:ident, $m:ident, $sm:ident) => {{
        fn go() {
            one!("add" + += $v $e $n $w $k);
            one!("sub" - -= $v $e $n $w $k);
            one!("mul" * *= $v $e $n $w $k);
            one!("div" / /= $v $e $n $w $k);
            one!("rem" % %= $v $e $n $w $k);
            drive("min", stringify!($v), "vv", Kind::$k, $w, $n, &|a, b| to_bytes(&from_bytes::<$v>(a).min(from_bytes::<$v>(b))));
            drive("max", stringify!($v), "vv", Kind::$k, $w, $n, &|a, b| to_bytes(&from_bytes::<$v>(a).max(from_bytes::<$v>(b))));
        }
        go();
    }};
}
macro_rules! negs {
    ($v:ident, $e:ident, $n:literal, $w:literal, $k:ident, $m:ident, $sm:ident) => {{
        drive("neg", stringify!($v), "vv", Kind::$k, $w, $n, &|a, _| to_bytes(&(-from_bytes::<$v>(a))));
    }};
}
fn main() {
    start();
    ints!(all_ops);
    sints!(negs);
    stop();
}
