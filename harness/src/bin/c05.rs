//! C05: equality, lexicographic order, hashing.
use harness::*;
use packed_simd::*;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

struct Tape(Vec<u8>);
impl Hasher for Tape {
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
    fn finish(&self) -> u64 {
        0
    }
}
fn tape<T: Hash + ?Sized>(x: &T) -> Vec<u8> {
    let mut t = Tape(vec![]);
    x.hash(&mut t);
    t.0
}
fn ord(o: Ordering) -> Vec<u8> {
    vec![(o as i8 + 1) as u8]
}
fn pord(o: Option<Ordering>) -> Vec<u8> {
    o.map(ord).unwrap_or(vec![3])
}
/// every lane in turn is the first (or the only) one that differs
fn pairs(k: Kind, w: usize, n: usize) -> impl Fn(&mut Rng) -> (Vec<u8>, Vec<u8>) {
    move |r| {
        let c = cyc();
        let (i, mode) = (c % n, (c / n) % 4);
        let mut a = gen_vec(r, k, w, n);
        if mode == 3 || (n < 4 && r.below(3) == 0) {
            let b = relate(r, &a, k, w);
            return (a, b);
        }
        let mut b = a.clone();
        let m = mask_w(w);
        let (mut lo, mut hi) = match k {
            Kind::M => (0, m),
            Kind::F => {
                let z = 1u128 << (8 * w - 1);
                let nan = if w == 4 { 0x7fc0_0000 } else { 0x7ff8_0000_0000_0000 };
                match r.below(6) {
                    0 => (0, z),       // equal, though the bits differ
                    1 => (nan, nan),   // different, though the bits are equal
                    _ => (gen_float(r, w), gen_float(r, w)),
                }
            }
            _ => {
                let x = gen_int(r, w);
                (x, if r.below(2) == 0 { x.wrapping_add(1) & m } else { gen_int(r, w) })
            }
        };
        if r.below(2) == 0 {
            core::mem::swap(&mut lo, &mut hi);
        }
        if k == Kind::F {
            // other lanes equal to themselves
            for j in 0..n {
                let x = (r.below(1 << 20) as f64) / 64.0;
                let x = if w == 4 { (x as f32).to_bits() as u128 } else { x.to_bits() as u128 };
                set_lane(&mut a, w, j, x);
                set_lane(&mut b, w, j, x);
            }
        }
        set_lane(&mut a, w, i, lo);
        set_lane(&mut b, w, i, hi);
        for j in i + 1..n {
            // the later lanes say the opposite
            if mode == 1 || (mode == 2 && r.below(2) == 0) {
                set_lane(&mut a, w, j, hi);
                set_lane(&mut b, w, j, lo);
            }
        }
        (a, b)
    }
}
macro_rules! eqs {
    ($v:ty, $t:expr, $n:literal, $w:literal, $k:ident) => {
        let g = pairs(Kind::$k, $w, $n);
        let c = lg().reps($n, 64).max(4 * $n);
        run2("eq", $t, "vv", c, &g, &|a, b| bb(from_bytes::<$v>(a) == from_bytes::<$v>(b)));
        run2("ne", $t, "vv", c, &g, &|a, b| bb(from_bytes::<$v>(a) != from_bytes::<$v>(b)));
        // a vector with itself, the very same object
        let same = |r: &mut Rng| {
            let a = if r.below(2) == 0 { g(r).0 } else { g(r).1 };
            (a.clone(), a)
        };
        run2("eq", $t, "self", c / 2, &same, &|a, _| {
            let v = from_bytes::<$v>(a);
            let p = &v;
            bb(*p == v)
        });
        run2("ne", $t, "self", c / 2, &same, &|a, _| {
            let v = from_bytes::<$v>(a);
            let p = &v;
            bb(*p != v)
        });
    };
}
macro_rules! each {
    ($v:ident, $e:ident, $n:literal, $w:literal, $k:ident, $m:ident, $sm:ident) => {{
        fn go() {
            eqs!($v, stringify!($v), $n, $w, $k);
        }
        go();
    }};
}
macro_rules! orders {
    ($v:ident, $e:ident, $n:literal, $w:literal, $k:ident, $m:ident, $sm:ident) => {{
        fn go() {
            let t = stringify!($v);
            let g = pairs(Kind::$k, $w, $n);
            let c = lg().reps($n, 32).max(4 * $n);
            run2("lexeq", t, "vv", c, &g, &|a, b| bb(from_bytes::<$v>(a).lex_ord() == from_bytes::<$v>(b).lex_ord()));
            run2("lexne", t, "vv", c, &g, &|a, b| bb(from_bytes::<$v>(a).lex_ord() != from_bytes::<$v>(b).lex_ord()));
            run2("lexmax", t, "vv", c / 2, &g, &|a, b| to_bytes(&from_bytes::<$v>(a).lex_ord().max(from_bytes::<$v>(b).lex_ord())));
            run2("lexmin", t, "vv", c / 2, &g, &|a, b| to_bytes(&from_bytes::<$v>(a).lex_ord().min(from_bytes::<$v>(b).lex_ord())));
            run2("lt", t, "vv", c, &g, &|a, b| bb(from_bytes::<$v>(a).partial_lex_ord() < from_bytes::<$v>(b).partial_lex_ord()));
            run2("le", t, "vv", c, &g, &|a, b| bb(from_bytes::<$v>(a).partial_lex_ord() <= from_bytes::<$v>(b).partial_lex_ord()));
            run2("gt", t, "vv", c, &g, &|a, b| bb(from_bytes::<$v>(a).lex_ord() > from_bytes::<$v>(b).lex_ord()));
            run2("ge", t, "vv", c, &g, &|a, b| bb(from_bytes::<$v>(a).lex_ord() >= from_bytes::<$v>(b).lex_ord()));
            run2("pcmp", t, "vv", c, &g, &|a, b| pord(from_bytes::<$v>(a).partial_lex_ord().partial_cmp(&from_bytes::<$v>(b).partial_lex_ord())));
            let same = |r: &mut Rng| {
                let a = g(r).0;
                (a.clone(), a)
            };
            run2("cmp", t, "self", c / 4, &same, &|a, _| {
                let v = from_bytes::<$v>(a).lex_ord();
                let p = &v;
                ord(p.cmp(&v))
            });
            run2("le", t, "self", c / 4, &same, &|a, _| {
                let v = from_bytes::<$v>(a).lex_ord();
                let p = &v;
                bb(*p <= v)
            });
            run2("gt", t, "self", c / 4, &same, &|a, _| {
                let v = from_bytes::<$v>(a).lex_ord();
                let p = &v;
                bb(*p > v)
            });
            run2("cmp", t, "vv", c, &g, &|a, b| ord(from_bytes::<$v>(a).lex_ord().cmp(&from_bytes::<$v>(b).lex_ord())));
        }
        go();
    }};
}
fn hashes(t: &str, w: usize, n: usize, k: Kind, f: F1, g: F1) {
    let mut r = rng("hash", t, "");
    for _ in 0..lg().reps(n, 32).max(2 * n) {
        let mut a = gen_vec(&mut r, k, w, n);
        let c = cyc();
        if c % 2 == 0 {
            // nearly constant vectors: one lane matters
            let x = gen_lane(&mut r, k, w);
            a = (0..w * n).map(|_| 0u8).collect();
            set_lane(&mut a, w, (c / 2) % n, x);
        }
        let h = catch(|| f(&a));
        let s = g(&a);
        lg().ev("hash", t).b("a", &a).b("s", &s).r(h);
    }
}
macro_rules! hash {
    ($v:ident, $e:ident, $n:literal, $w:literal, $k:ident, $m:ident, $sm:ident) => {{
        hashes(stringify!($v), $w, $n, Kind::$k, &|a| tape(&from_bytes::<$v>(a)), &|a| tape(&from_bytes::<[$e; $n]>(a)));
    }};
}
macro_rules! ptr {
    ($v:ident, $q:ident, $n:literal, $m:ident, $us:ident, $is:ident) => {{
        fn go<T: Copy>() {
            let t = stringify!($v);
            eqs!($v<T>, t, $n, 8, P);
            hashes(t, 8, $n, Kind::P, &|a| tape(&from_bytes::<$v<T>>(a)), &|a| tape(&from_bytes::<[*$q T; $n]>(a)));
        }
        go::<i32>();
        go::<u8>();
    }};
}
macro_rules! smask {
    ($m:ident, $w:literal) => {{
        fn go() {
            let t = stringify!($m);
            for &x in &[false, true] {
                let sm = |op: &str, a: bool, b: bool, s: &[u8], r: Vec<u8>| {
                    lg().ev(op, t).i("w", $w).b("a", &bb(a)).b("b", &bb(b)).b("s", s).r(Some(r));
                };
                sm("snew", x, x, &[], to_bytes(&$m::new(x)));
                sm("stest", x, x, &[], bb($m::new(x).test()));
                sm("stest", x, x, &[], bb(<$m as Mask>::test(&$m::new(x))));
                sm("sdefault", x, x, &[], to_bytes(&$m::default()));
                for &y in &[false, true] {
                    let (a, b) = ($m::new(x), $m::new(y));
                    sm("seq", x, y, &[], bb(a == b));
                    sm("sne", x, y, &[], bb(a != b));
                    sm("slt", x, y, &[], bb(a < b));
                    sm("sle", x, y, &[], bb(a <= b));
                    sm("sgt", x, y, &[], bb(a > b));
                    sm("sge", x, y, &[], bb(a >= b));
                    sm("scmp", x, y, &[], ord(a.cmp(&b)));
                    sm("spcmp", x, y, &[], pord(a.partial_cmp(&b)));
                    sm("shash", x, y, &tape(&b), tape(&a));
                }
            }
        }
        go();
    }};
}
fn main() {
    start();
    alls!(each);
    ints!(orders);
    masks!(orders);
    ints!(hash);
    ptrs!(ptr);
    smask!(m8, 1);
    smask!(m16, 2);
    smask!(m32, 4);
    smask!(m64, 8);
    smask!(m128, 16);
    smask!(msize, 8);
    stop();
}
