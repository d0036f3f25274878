//! C09: registers - construction, extract, replace; behaviours come from spec/SimdGen.tla.
use harness::*;
use packed_simd::*;

struct Api<'a> {
    t: &'a str,
    k: Kind,
    w: usize,
    n: usize,
    new: F1<'a>,
    array: F1<'a>,
    splat: F1<'a>,
    default: &'a dyn Fn() -> Vec<u8>,
    null: &'a dyn Fn() -> Vec<u8>,
    toarray: F1<'a>,
    extract: &'a dyn Fn(&[u8], usize) -> Vec<u8>,
    extract_u: &'a dyn Fn(&[u8], usize) -> Vec<u8>,
    replace: &'a dyn Fn(&[u8], usize, &[u8]) -> Vec<u8>,
    replace_u: &'a dyn Fn(&[u8], usize, &[u8]) -> Vec<u8>,
}
/// any bit pattern (no signalling NaN): these operations move bits
fn value(r: &mut Rng, k: Kind, w: usize, n: usize) -> Vec<u8> {
    match k {
        Kind::M => gen_mask(w, n, r),
        Kind::F => (0..n).flat_map(|_| quiet(r.u128() & mask_w(w), w).to_le_bytes()[..w].to_vec()).collect(),
        _ => (0..w * n).map(|_| r.next() as u8).collect(),
    }
}
/// the index class of the specification on a type of `n` lanes
fn index(r: &mut Rng, p: usize, n: usize) -> usize {
    match p {
        // the class "any lane", taken in turn
        _ if p >= 100 => p - 100,
        0 => 0,
        1 => 1 % n,
        2 => n / 2,
        3 => n - 1,
        4 => r.below(n),
        5 => n,
        6 => n + 1,
        7 => 2 * n,
        8 => (1usize << 32) + r.below(n),
        9 => (1usize << 63) + r.below(n),
        10 => usize::MAX - r.below(n),
        _ => [256usize, 65536, 1 << 31, 3 * n, n + 2][r.below(5)].max(n) + r.below(n),
    }
}
fn drive(a: &Api, ps: &[Vec<Cmd>]) {
    let mut r = rng("c09", a.t, "");
    // after the generated behaviours: every lane, by every way to address it
    let each: Vec<Cmd> = (0..a.n)
        .flat_map(|i| ["r_extract", "r_extract_u", "r_replace", "r_replace_u"].iter().map(move |o| (o.to_string(), [1 + i % 3, 1 + (i / 3) % 3, 100 + i, 0])))
        .collect();
    let each: Vec<Cmd> = each.into_iter().map(|(o, v)| if o.starts_with("r_ext") { (o, [0, v[1], v[2], v[3]]) } else { (o, v) }).collect();
    let mut runs = pick(ps, a.t, 4 * lg().scale);
    runs.push(&each);
    for p in runs {
        let mut g: Vec<Vec<u8>> = (0..3).map(|_| value(&mut r, a.k, a.w, a.n)).collect();
        lg().begin(a.t, &g, &[]);
        for (op, [d, s, ix, _]) in p {
            let (d, s) = (*d, *s);
            let i = index(&mut r, *ix, a.n);
            let src = if s > 0 { g[s - 1].clone() } else { vec![] };
            let full = value(&mut r, a.k, a.w, a.n);
            let one = full[..a.w].to_vec();
            let op = if op == "r_null" && a.k != Kind::P { "r_default" } else { op.as_str() };
            let (arg, res) = match op {
                "r_new" => (full.clone(), catch(|| (a.new)(&full))),
                "r_array" => (full.clone(), catch(|| (a.array)(&full))),
                "r_splat" => (one.clone(), catch(|| (a.splat)(&one))),
                "r_default" => (vec![], catch(|| (a.default)())),
                "r_null" => (vec![], catch(|| (a.null)())),
                "r_toarray" => (vec![], catch(|| (a.toarray)(&src))),
                "r_extract" => (vec![], catch(|| (a.extract)(&src, i))),
                "r_extract_u" => (vec![], catch(|| (a.extract_u)(&src, i))),
                "r_replace" => (one.clone(), catch(|| (a.replace)(&src, i, &one))),
                "r_replace_u" => (one.clone(), catch(|| (a.replace_u)(&src, i, &one))),
                _ => unreachable!(),
            };
            if d > 0 {
                if let Some(v) = &res {
                    g[d - 1] = v.clone();
                }
            }
            lg().ev(op, a.t)
                .i("d", d as i64)
                .i("s", s as i64)
                .b("i", &i.to_le_bytes())
                .b("a", &arg)
                .bs("g", &g)
                .b("m", &[])
                .r(res);
        }
    }
}
static mut PS: Vec<Vec<Cmd>> = vec![];
macro_rules! lay {
    ($v:ty, $t:expr, $n:tt) => {
        lg().ev("layout", $t).i("size", core::mem::size_of::<$v>() as i64).i("lanes", <$v>::lanes() as i64).i("vl", <$v as SimdVector>::LANES as i64).r(Some(vec![0]));
    };
}
macro_rules! iuf {
    ($v:ident, $e:ident, $n:tt, $w:tt, $k:ident, $m:ident, $sm:ident) => {{
        fn go() {
            type E = $e;
            let el = |b: &[u8]| from_bytes::<E>(b);
            let vv = |b: &[u8]| from_bytes::<$v>(b);
            drive(
                &Api {
                    t: stringify!($v),
                    k: Kind::$k,
                    w: $w,
                    n: $n,
                    new: &|a| to_bytes(&call_new!($v, $n, |i: usize| el(&a[i * $w..(i + 1) * $w]))),
                    array: &|a| { let v: $v = from_bytes::<[E; $n]>(a).into(); to_bytes(&v) },
                    splat: &|a| to_bytes(&$v::splat(el(a))),
                    default: &|| to_bytes(&$v::default()),
                    null: &|| unreachable!(),
                    toarray: &|a| { let x: [E; $n] = vv(a).into(); to_bytes(&x) },
                    extract: &|a, i| to_bytes(&vv(a).extract(i)),
                    extract_u: &|a, i| to_bytes(&unsafe { vv(a).extract_unchecked(i) }),
                    replace: &|a, i, x| to_bytes(&vv(a).replace(i, el(x))),
                    replace_u: &|a, i, x| to_bytes(&unsafe { vv(a).replace_unchecked(i, el(x)) }),
                },
                unsafe { &PS },
            );
            lay!($v, stringify!($v), $n);
        }
        go();
    }};
}
macro_rules! mask {
    ($v:ident, $e:ident, $n:tt, $w:tt, $k:ident, $m:ident, $sm:ident) => {{
        fn go() {
            let el = |b: &[u8]| b[0] != 0;
            let un = |b: bool| vec![if b { 255u8 } else { 0 }; $w];
            let vv = |b: &[u8]| from_bytes::<$v>(b);
            drive(
                &Api {
                    t: stringify!($v),
                    k: Kind::M,
                    w: $w,
                    n: $n,
                    new: &|a| to_bytes(&call_new!($v, $n, |i: usize| el(&a[i * $w..(i + 1) * $w]))),
                    array: &|a| { let v: $v = from_bytes::<[$sm; $n]>(a).into(); to_bytes(&v) },
                    splat: &|a| to_bytes(&$v::splat(el(a))),
                    default: &|| to_bytes(&$v::default()),
                    null: &|| unreachable!(),
                    toarray: &|a| { let x: [$sm; $n] = vv(a).into(); to_bytes(&x) },
                    extract: &|a, i| un(vv(a).extract(i)),
                    extract_u: &|a, i| un(unsafe { vv(a).extract_unchecked(i) }),
                    replace: &|a, i, x| to_bytes(&vv(a).replace(i, el(x))),
                    replace_u: &|a, i, x| to_bytes(&unsafe { vv(a).replace_unchecked(i, el(x)) }),
                },
                unsafe { &PS },
            );
            lay!($v, stringify!($v), $n);
        }
        go();
    }};
}
macro_rules! ptr {
    ($v:ident, $c:ident, $n:tt, $m:ident, $us:ident, $is:ident) => {{
        fn go() {
            type E = *$c u32;
            let el = |b: &[u8]| from_bytes::<E>(b);
            let vv = |b: &[u8]| from_bytes::<$v<u32>>(b);
            drive(
                &Api {
                    t: stringify!($v),
                    k: Kind::P,
                    w: 8,
                    n: $n,
                    new: &|a| to_bytes(&call_new!($v, $n, |i: usize| el(&a[i * 8..(i + 1) * 8]))),
                    array: &|a| { let v: $v<u32> = from_bytes::<[E; $n]>(a).into(); to_bytes(&v) },
                    splat: &|a| to_bytes(&$v::<u32>::splat(el(a))),
                    default: &|| to_bytes(&$v::<u32>::default()),
                    null: &|| to_bytes(&$v::<u32>::null()),
                    toarray: &|a| { let x: [E; $n] = vv(a).into(); to_bytes(&x) },
                    extract: &|a, i| to_bytes(&vv(a).extract(i)),
                    extract_u: &|a, i| to_bytes(&unsafe { vv(a).extract_unchecked(i) }),
                    replace: &|a, i, x| to_bytes(&vv(a).replace(i, el(x))),
                    replace_u: &|a, i, x| to_bytes(&unsafe { vv(a).replace_unchecked(i, el(x)) }),
                },
                unsafe { &PS },
            );
            lay!($v<u32>, stringify!($v), $n);
        }
        go();
    }};
}
macro_rules! konst {
    ($v:ident, $e:ident: $($c:ident = $x:expr),*) => {
        $(lg().ev("fconst", stringify!($v)).s("nm", stringify!($c)).b("a", &to_bytes(&$x)).r(Some(to_bytes(&$v::$c)));)*
    };
}
macro_rules! consts {
    ($v:ident, $e:ident, $n:tt, $w:tt, $k:ident, $m:ident, $sm:ident) => {{
        fn go() {
            use core::$e::consts as c;
            konst!($v, $e: EPSILON = $e::EPSILON, MIN = $e::MIN, MIN_POSITIVE = $e::MIN_POSITIVE, MAX = $e::MAX,
                NAN = $e::NAN, INFINITY = $e::INFINITY, NEG_INFINITY = $e::NEG_INFINITY, PI = c::PI,
                FRAC_PI_2 = c::FRAC_PI_2, FRAC_PI_3 = c::FRAC_PI_3, FRAC_PI_4 = c::FRAC_PI_4, FRAC_PI_6 = c::FRAC_PI_6,
                FRAC_PI_8 = c::FRAC_PI_8, FRAC_1_PI = c::FRAC_1_PI, FRAC_2_PI = c::FRAC_2_PI,
                FRAC_2_SQRT_PI = c::FRAC_2_SQRT_PI, SQRT_2 = c::SQRT_2, FRAC_1_SQRT_2 = c::FRAC_1_SQRT_2, E = c::E,
                LOG2_E = c::LOG2_E, LOG10_E = c::LOG10_E, LN_2 = c::LN_2, LN_10 = c::LN_10);
        }
        go();
    }};
}
fn main() {
    start();
    unsafe { PS = programs() };
    ints!(iuf);
    floats!(iuf);
    masks!(mask);
    ptrs!(ptr);
    floats!(consts);
    stop();
}
