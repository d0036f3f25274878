//! C18: programs of register operations (behaviours from spec/SimdGen.tla), to be
//! recorded in every configuration.
use harness::*;
use packed_simd::*;

struct Api<'a> {
    t: &'a str,
    m: &'a str,
    k: Kind,
    w: usize,
    n: usize,
    exec: &'a dyn Fn(&str, &[u8], &[u8], &[u8]) -> Vec<u8>,
}
fn fresh(r: &mut Rng, k: Kind, w: usize, n: usize) -> Vec<u8> {
    gen_vec(r, k, w, n)
}
fn drive(a: &Api, ps: &[Vec<Cmd>]) {
    let mut r = rng("c18", a.t, "");
    let per = if a.w * a.n > 32 || a.k == Kind::F { 2 } else { 4 } * lg().scale;
    for p in pick(ps, a.t, per) {
        let mut g: Vec<Vec<u8>> = (0..3).map(|_| fresh(&mut r, a.k, a.w, a.n)).collect();
        g.push(gen_mask(a.w, a.n, &mut r));
        g.push(gen_mask(a.w, a.n, &mut r));
        let mut idx = vec![];
        for _ in 0..a.n {
            put(&mut idx, r.below(a.n) as u128, a.w);
        }
        g.push(idx);
        lg().begin(a.t, &g, &[]);
        for (op, [d, s, p, q]) in p {
            if op.starts_with("r_") {
                let v = if op == "r_array" { fresh(&mut r, a.k, a.w, a.n) } else { fresh(&mut r, a.k, a.w, 1) };
                let res = catch(|| (a.exec)(op, &v, &[], &[]));
                if let Some(x) = &res {
                    g[*d - 1] = x.clone();
                }
                lg().ev(op, a.t).i("d", *d as i64).i("s", 0).b("a", &v).bs("g", &g).b("m", &[]).r(res);
                continue;
            }
            let regs: Vec<i64> = [*s, *p, *q].iter().filter(|&&x| x > 0).map(|&x| x as i64).collect();
            let arg = |i: usize| if i == 0 { vec![] } else { g[i - 1].clone() };
            let (x, y, z) = (arg(*s), arg(*p), arg(*q));
            let op = if op == "neg" && a.k == Kind::U { "not" } else { op.as_str() };
            let res = catch(|| (a.exec)(op, &x, &y, &z));
            if *d > 0 {
                if let Some(v) = &res {
                    g[*d - 1] = v.clone();
                }
            }
            // operations whose receiver is a mask
            let onmask = op.starts_with("m_") || op == "select" || op == "mred" || op == "mbitmask";
            let name = match op {
                "mbitmask" => "bitmask",
                o if o.starts_with("m_") => &o[2..],
                o => o,
            };
            lg().ev("x", if onmask { a.m } else { a.t })
                .s("u", a.t)
                .s("o", name)
                .i("d", *d as i64)
                .ints("s", &regs)
                .bs("g", &g)
                .r(res);
        }
    }
}
static mut PS: (Vec<Vec<Cmd>>, Vec<Vec<Cmd>>) = (vec![], vec![]);
fn ord(o: core::cmp::Ordering) -> Vec<u8> {
    vec![(o as i8 + 1) as u8]
}
macro_rules! common {
    ($v:ident $i:ident $m:ident $n:tt, $op:expr, $a:expr, $b:expr, $c:expr, $more:expr) => {{
        let (op, a, b, c) = ($op, $a, $b, $c);
        let vv = |b: &[u8]| from_bytes::<$v>(b);
        let mm = |b: &[u8]| from_bytes::<$m>(b);
        match op {
            "r_array" => { let x: [_; $n] = from_bytes(a); to_bytes(&$v::from(x)) }
            "r_splat" => to_bytes(&$v::splat(from_bytes(a))),
            "m_and" => to_bytes(&(mm(a) & mm(b))),
            "m_or" => to_bytes(&(mm(a) | mm(b))),
            "m_xor" => to_bytes(&(mm(a) ^ mm(b))),
            "m_not" => to_bytes(&!mm(a)),
            "veq" => to_bytes::<$m>(&vv(a).eq(vv(b))),
            "vne" => to_bytes::<$m>(&vv(a).ne(vv(b))),
            "vlt" => to_bytes::<$m>(&vv(a).lt(vv(b))),
            "vle" => to_bytes::<$m>(&vv(a).le(vv(b))),
            "vgt" => to_bytes::<$m>(&vv(a).gt(vv(b))),
            "vge" => to_bytes::<$m>(&vv(a).ge(vv(b))),
            "select" => to_bytes(&mm(a).select(vv(b), vv(c))),
            "mred" => { let x = mm(a); vec![x.all() as u8 + 2 * x.any() as u8 + 4 * x.none() as u8] }
            "mbitmask" => to_bytes(&mm(a).bitmask()),
            "eq" => bb(vv(a) == vv(b)),
            "shuffle1_dyn" => to_bytes(&vv(a).shuffle1_dyn(from_bytes::<$i>(b))),
            "add" => to_bytes(&(vv(a) + vv(b))),
            "sub" => to_bytes(&(vv(a) - vv(b))),
            "mul" => to_bytes(&(vv(a) * vv(b))),
            "min" => to_bytes(&vv(a).min(vv(b))),
            "max" => to_bytes(&vv(a).max(vv(b))),
            "rmin" => to_bytes(&vv(a).min_element()),
            "rmax" => to_bytes(&vv(a).max_element()),
            _ => $more,
        }
    }};
}
macro_rules! int_ops {
    ($v:ident $op:expr, $a:expr, $b:expr, $neg:expr) => {{
        let (a, b) = ($a, $b);
        let vv = |b: &[u8]| from_bytes::<$v>(b);
        match $op {
            "and" => to_bytes(&(vv(a) & vv(b))),
            "or" => to_bytes(&(vv(a) | vv(b))),
            "xor" => to_bytes(&(vv(a) ^ vv(b))),
            "rotl" => to_bytes(&vv(a).rotate_left(vv(b))),
            "rotr" => to_bytes(&vv(a).rotate_right(vv(b))),
            "not" => to_bytes(&!vv(a)),
            "neg" => $neg,
            "swap_bytes" => to_bytes(&vv(a).swap_bytes()),
            "count_ones" => to_bytes(&vv(a).count_ones()),
            "leading_zeros" => to_bytes(&vv(a).leading_zeros()),
            "trailing_zeros" => to_bytes(&vv(a).trailing_zeros()),
            "wsum" => to_bytes(&vv(a).wrapping_sum()),
            "wprod" => to_bytes(&vv(a).wrapping_product()),
            "rand" => to_bytes(&vv(a).and()),
            "ror" => to_bytes(&vv(a).or()),
            "rxor" => to_bytes(&vv(a).xor()),
            "bitmask" => to_bytes(&vv(a).bitmask()),
            "lt" => bb(vv(a).lex_ord() < vv(b).lex_ord()),
            "cmp" => ord(vv(a).lex_ord().cmp(&vv(b).lex_ord())),
            _ => unreachable!(),
        }
    }};
}
macro_rules! prog {
    ($v:ident $i:ident $m:ident I $w:tt $n:tt) => { prog!(@ $v $i $m I $w $n, PS.0, |op, a: &[u8], b: &[u8]| int_ops!($v op, a, b, to_bytes(&-from_bytes::<$v>(a)))) };
    ($v:ident $i:ident $m:ident U $w:tt $n:tt) => { prog!(@ $v $i $m U $w $n, PS.0, |op, a: &[u8], b: &[u8]| int_ops!($v op, a, b, unreachable!())) };
    ($v:ident $i:ident $m:ident F $w:tt $n:tt) => {{
        fn go() {
            let vv = |b: &[u8]| from_bytes::<$v>(b);
            drive(&Api { t: stringify!($v), m: stringify!($m), k: Kind::F, w: $w, n: $n, exec: &|op, a, b, c| {
                common!($v $i $m $n, op, a, b, c, match op {
                    "div" => to_bytes(&(vv(a) / vv(b))),
                    "neg" => to_bytes(&-vv(a)),
                    "abs" => to_bytes(&vv(a).abs()),
                    "sqrt" => to_bytes(&vv(a).sqrt()),
                    "mul_add" => to_bytes(&vv(a).mul_add(vv(b), vv(c))),
                    "is_nan" => to_bytes::<$m>(&vv(a).is_nan()),
                    "is_finite" => to_bytes::<$m>(&vv(a).is_finite()),
                    "fsum" => to_bytes(&vv(a).sum()),
                    _ => unreachable!(),
                })
            } }, unsafe { &PS.1 });
        }
        go();
    }};
    (@ $v:ident $i:ident $m:ident $k:ident $w:tt $n:tt, PS.0, $more:expr) => {{
        fn go() {
            drive(&Api { t: stringify!($v), m: stringify!($m), k: Kind::$k, w: $w, n: $n, exec: &|op, a, b, c| {
                common!($v $i $m $n, op, a, b, c, ($more)(op, a, b))
            } }, unsafe { &PS.0 });
        }
        go();
    }};
}
include!("../gen/prog.rs");
fn main() {
    start();
    // programs that use float operations, and the others
    let is_float = |p: &Vec<Cmd>| p.iter().any(|(o, _)| ["div", "abs", "sqrt", "mul_add", "is_nan", "is_finite", "fsum"].contains(&o.as_str()));
    let all = programs();
    unsafe {
        PS.0 = all.iter().filter(|p| !is_float(p)).cloned().collect();
        PS.1 = all.iter().filter(|p| is_float(p)).cloned().collect();
    }
    list_prog();
    stop();
}
