//! C03: float arithmetic.
use harness::*;
use packed_simd::*;

/// Three operands with the relations that make rounding interesting.
fn trip(r: &mut Rng, w: usize, n: usize) -> [u128; 3] {
    let _ = n;
    let a = gen_float(r, w);
    let mut b = gen_float(r, w);
    let mut c = gen_float(r, w);
    let top = 1u128 << (8 * w - 1);
    let fl = |x: u128| if w == 4 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x as u64) };
    match r.below(14) {
        // a product or quotient near the smallest or the largest magnitudes
        8 | 9 | 10 => {
            let (fb, bias, top_e) = if w == 4 { (23, 127i64, 254) } else { (52, 1023i64, 2046) };
            let ea = ((a >> fb) & if w == 4 { 255 } else { 2047 }) as i64;
            let small = r.below(2) == 0;
            let goal = if small { 1 - r.below(fb + 3) as i64 } else { top_e - 1 + r.below(4) as i64 };
            let eb = if r.below(2) == 0 { goal - ea + bias } else { ea - goal + bias };
            if 0 < eb && eb <= top_e {
                b = (b & (top | ((1u128 << fb) - 1))) | ((eb as u128) << fb);
            }
        }
        // a product exactly between two floats, and an addend that is next to nothing
        11 => {
            let (fb, ex) = if w == 4 { (23u32, 127u128) } else { (52, 1023) };
            let k = 1 + r.below(fb as usize) as u32;
            let sgn = |r: &mut Rng| if r.below(2) == 0 { 0 } else { top };
            let x = ((ex + r.below(9) as u128) << fb) | (1u128 << (fb - k)) | sgn(r);
            b = ((ex + r.below(9) as u128) << fb) | (1u128 << (k - 1)) | sgn(r);
            c = ((ex - 40 - r.below(60) as u128) << fb) | sgn(r);
            return [x, b, c];
        }
        0 => b = a,
        1 => b = a ^ top,
        // same exponent, different fraction: cancellation
        2 => b = (a & !0xffff) ^ top ^ (r.below(65536) as u128),
        // c near -a*b: fused multiply-add cancellation
        3 | 4 => {
            let p = -(fl(a) * fl(b));
            // the sign of a computed NaN is not determined
            let p = if p.is_nan() { 1.5 } else { p };
            c = if w == 4 { (p as f32).to_bits() as u128 } else { p.to_bits() as u128 };
            if r.below(2) == 0 {
                c ^= 1;
            }
        }
        // operands half an ulp apart: ties
        5 => {
            let e = if w == 4 { 24u128 << 23 } else { 53u128 << 52 };
            let mag = a & (top - 1);
            if mag > e {
                b = mag - e;
            }
        }
        _ => {}
    }
    [a, quiet(b & mask_w(w), w), quiet(c & mask_w(w), w)]
}
/// exponents far apart make the exact remainder very long; keep a mix
fn tame_rem(r: &mut Rng, a: u128, b: u128, w: usize) -> (u128, u128) {
    let ex = |x: u128| if w == 4 { ((x >> 23) & 255) as i64 } else { ((x >> 52) & 2047) as i64 };
    if ex(a) - ex(b) > 90 && r.below(24) != 0 {
        let fr = if w == 4 { (1u128 << 23) - 1 } else { (1u128 << 52) - 1 };
        let sh = if w == 4 { 23 } else { 52 };
        let e = (ex(a) - r.below(60) as i64).max(0) as u128;
        let top = 1u128 << (8 * w - 1);
        (a, quiet((b & (fr | top)) | (e << sh), w))
    } else {
        (a, b)
    }
}
fn ops(op: &'static str, form: &'static str, w: usize, n: usize) -> impl Fn(&mut Rng) -> (Vec<u8>, Vec<u8>) {
    move |r| {
        let (mut a, mut b) = (vec![], vec![]);
        for i in 0..n {
            let t = trip(r, w, n);
            let (x, y) = if op == "rem" { tame_rem(r, t[0], t[1], w) } else { (t[0], t[1]) };
            if i == 0 || form != "sv" {
                put(&mut a, x, w);
            }
            if i == 0 || (form != "vs" && form != "as") {
                put(&mut b, y, w);
            }
        }
        (a, b)
    }
}
fn sweep2(op: &str, t: &str, form: &str, w: usize, n: usize, f: F2) {
    let rem = op == "rem";
    let p = pool(&format!("{}/{}", w, rem), &|| {
        let mut r = Rng::new(lg().seed, &format!("c03{}", w));
        let v = floats_of(w, if rem { 24 } else if deep() { 120 } else { 72 }, "c03");
        let mut x = close_floats(w, if deep() { 4000 } else { 300 }, "c03");
        for _ in 0..if deep() { 20000 } else { 1500 } {
            let t = trip(&mut r, w, n);
            let (a, b) = if rem { tame_rem(&mut r, t[0], t[1], w) } else { (t[0], t[1]) };
            x.push([a, b, 0]);
        }
        let ex = |x: u128| if w == 4 { ((x >> 23) & 255) as i64 } else { ((x >> 52) & 2047) as i64 };
        Pool::grid(&v, &v, &x, &|a, b| !rem || ex(a) - ex(b) < 150)
    });
    let o = LaneOp { op, k: Kind::F, w: [w, w, 0], u: None, rw: w, z: 0, tag: "" };
    sweep(&o, t, form, n, w, p, if form == "vv" { 4 } else { 1 }, &|a, b, _| f(a, b));
}
fn sweep1(op: &str, t: &str, w: usize, n: usize, f: F1) {
    let p = pool(&format!("{}", w), &|| Pool::single(&floats_of(w, if deep() { 40000 } else { 4000 }, "c03u")));
    let o = LaneOp { op, k: Kind::F, w: [w, 0, 0], u: None, rw: w, z: 0, tag: "" };
    sweep(&o, t, "vv", n, w, p, 4, &|a, _, _| f(a));
}
fn sweep3(op: &str, t: &str, w: usize, n: usize, f: F3) {
    let p = pool(&format!("3/{}", w), &|| {
        let mut r = Rng::new(lg().seed, &format!("c03t{}", w));
        let e = float_edges(w);
        let mut v = vec![];
        for _ in 0..if deep() { 30000 } else { 3000 } {
            v.push(if r.below(4) == 0 { [e[r.below(e.len())], e[r.below(e.len())], e[r.below(e.len())]] } else { trip(&mut r, w, n) });
        }
        Pool::list(v)
    });
    let o = LaneOp { op, k: Kind::F, w: [w, w, w], u: None, rw: w, z: 0, tag: "" };
    sweep(&o, t, "vv", n, w, p, 4, f);
}
macro_rules! both {
    ($name:expr, $t:expr, $form:literal, $c:expr, $g:expr, $w:expr, $n:expr, $f:expr) => {
        sweep2($name, $t, $form, $w, $n, $f);
        run2($name, $t, $form, $c, $g, $f);
    };
}
macro_rules! one {
    ($name:literal $op:tt $opa:tt $v:ident $e:ident $n:literal $w:literal) => {
        let t = stringify!($v);
        let c = lg().reps($n, if $name == "rem" { 8 } else { 32 });
        let c2 = lg().reps($n, if $name == "rem" { 4 } else { 8 });
        both!($name, t, "vv", c, &ops($name, "vv", $w, $n), $w, $n, &|a, b| to_bytes(&(from_bytes::<$v>(a) $op from_bytes::<$v>(b))));
        both!($name, t, "vs", c2, &ops($name, "vs", $w, $n), $w, $n, &|a, b| to_bytes(&(from_bytes::<$v>(a) $op from_bytes::<$e>(b))));
        both!($name, t, "sv", c2, &ops($name, "sv", $w, $n), $w, $n, &|a, b| to_bytes(&(from_bytes::<$e>(a) $op from_bytes::<$v>(b))));
        both!($name, t, "av", c2, &ops($name, "vv", $w, $n), $w, $n, &|a, b| { let mut x = from_bytes::<$v>(a); x $opa from_bytes::<$v>(b); to_bytes(&x) });
        both!($name, t, "as", c2, &ops($name, "as", $w, $n), $w, $n, &|a, b| { let mut x = from_bytes::<$v>(a); x $opa from_bytes::<$e>(b); to_bytes(&x) });
    };
}
fn run3(op: &str, t: &str, w: usize, n: usize, count: usize, f: F3) {
    sweep3(op, t, w, n, f);
    let mut r = rng(op, t, "");
    for _ in 0..count {
        let (mut a, mut b, mut c) = (vec![], vec![], vec![]);
        for _ in 0..n {
            let t = trip(&mut r, w, n);
            put(&mut a, t[0], w);
            put(&mut b, t[1], w);
            put(&mut c, t[2], w);
        }
        let res = catch(|| f(&a, &b, &c));
        lg().ev(op, t).b("a", &a).b("b", &b).b("c", &c).r(res);
    }
}
macro_rules! un {
    ($name:literal $v:ident $n:literal $w:literal $c:expr, |$x:ident| $e:expr) => {
        sweep1($name, stringify!($v), $w, $n, &|a| { let $x = from_bytes::<$v>(a); to_bytes(&$e) });
        run2($name, stringify!($v), "vv", $c, &|r: &mut Rng| (gen_vec(r, Kind::F, $w, $n), vec![]), &|a, _| { let $x = from_bytes::<$v>(a); to_bytes(&$e) });
    };
}
macro_rules! float_ops {
    ($v:ident, $e:ident, $n:literal, $w:literal, $k:ident, $m:ident, $sm:ident) => {{
        fn go() {
            let t = stringify!($v);
            one!("add" + += $v $e $n $w);
            one!("sub" - -= $v $e $n $w);
            one!("mul" * *= $v $e $n $w);
            one!("div" / /= $v $e $n $w);
            one!("rem" % %= $v $e $n $w);
            let c = lg().reps($n, 32);
            both!("min", t, "vv", c, &|r: &mut Rng| { let a = gen_vec(r, Kind::F, $w, $n); let b = relate(r, &a, Kind::F, $w); (a, b) }, $w, $n, &|a, b| to_bytes(&from_bytes::<$v>(a).min(from_bytes::<$v>(b))));
            both!("max", t, "vv", c, &|r: &mut Rng| { let a = gen_vec(r, Kind::F, $w, $n); let b = relate(r, &a, Kind::F, $w); (a, b) }, $w, $n, &|a, b| to_bytes(&from_bytes::<$v>(a).max(from_bytes::<$v>(b))));
            un!("neg" $v $n $w c, |x| -x);
            un!("abs" $v $n $w c, |x| x.abs());
            un!("sqrt" $v $n $w c, |x| x.sqrt());
            un!("sqrte" $v $n $w c, |x| x.sqrte());
            un!("rsqrte" $v $n $w c, |x| x.rsqrte());
            un!("recpre" $v $n $w c, |x| x.recpre());
            run3("mul_add", t, $w, $n, c, &|a, b, c| to_bytes(&from_bytes::<$v>(a).mul_add(from_bytes::<$v>(b), from_bytes::<$v>(c))));
            run3("mul_adde", t, $w, $n, c, &|a, b, c| to_bytes(&from_bytes::<$v>(a).mul_adde(from_bytes::<$v>(b), from_bytes::<$v>(c))));
        }
        go();
    }};
}
fn main() {
    start();
    floats!(float_ops);
    stop();
}
