//! C16: formatting.
use harness::*;
use packed_simd::*;
use std::fmt::{Binary, Debug, LowerHex, Octal, UpperHex, Write};

/// (width, fill, alignment, plus, alternate, zero)
const FLAGS: [(i64, &str, i64, i64, i64, i64); 14] = [
    (-1, " ", 0, 0, 0, 0),
    (7, " ", 0, 0, 0, 0),
    (9, " ", 1, 0, 0, 0),
    (9, " ", 3, 0, 0, 0),
    (8, "*", 2, 0, 0, 0),
    (-1, " ", 0, 1, 0, 0),
    (-1, " ", 0, 0, 1, 0),
    (10, " ", 0, 0, 0, 1),
    (12, " ", 0, 0, 1, 1),
    (12, " ", 0, 1, 1, 1),
    (1, " ", 0, 0, 0, 0),
    (40, ".", 3, 1, 1, 0),
    (6, "-", 1, 0, 0, 0),
    (11, " ", 0, 1, 0, 1),
];
/// A sink with room for so many characters: it takes what fits and then fails.
struct Sink(String, usize);
static mut ROOM: usize = usize::MAX;
static mut FAILED: bool = false;
impl Write for Sink {
    fn write_str(&mut self, t: &str) -> core::fmt::Result {
        for c in t.chars() {
            if self.1 == 0 {
                return Err(core::fmt::Error);
            }
            self.1 -= 1;
            self.0.push(c);
        }
        Ok(())
    }
}
macro_rules! by_flags {
    ($name:ident, $tr:ident, $s:literal) => {
        fn $name<T: $tr>(j: usize, v: &T) -> String {
            let mut s = Sink(String::new(), unsafe { ROOM });
            let r = match j {
                0 => write!(s, concat!("{:", $s, "}"), v),
                1 => write!(s, concat!("{:7", $s, "}"), v),
                2 => write!(s, concat!("{:<9", $s, "}"), v),
                3 => write!(s, concat!("{:>9", $s, "}"), v),
                4 => write!(s, concat!("{:*^8", $s, "}"), v),
                5 => write!(s, concat!("{:+", $s, "}"), v),
                6 => write!(s, concat!("{:#", $s, "}"), v),
                7 => write!(s, concat!("{:010", $s, "}"), v),
                8 => write!(s, concat!("{:#012", $s, "}"), v),
                9 => write!(s, concat!("{:+#012", $s, "}"), v),
                10 => write!(s, concat!("{:1", $s, "}"), v),
                11 => write!(s, concat!("{:.>+#40", $s, "}"), v),
                12 => write!(s, concat!("{:-<6", $s, "}"), v),
                _ => write!(s, concat!("{:+011", $s, "}"), v),
            };
            unsafe { FAILED = r.is_err() };
            s.0
        }
    };
}
by_flags!(debug, Debug, "?");
by_flags!(debug_x, Debug, "x?");
by_flags!(debug_upx, Debug, "X?");
by_flags!(debug_prec, Debug, ".2?");
by_flags!(lower_hex, LowerHex, "x");
by_flags!(upper_hex, UpperHex, "X");
by_flags!(octal, Octal, "o");
by_flags!(binary, Binary, "b");

/// pointees
#[allow(dead_code)]
struct Node(u8);
type Pair = (Option<u16>, [i8; 3]);
type Unit = ();
type Thin = core::num::Wrapping<*const u8>;

fn gen(r: &mut Rng, k: Kind, w: usize, n: usize) -> Vec<u8> {
    if k == Kind::M { gen_mask(w, n, r) } else { gen_vec(r, k, w, n) }
}
/// x: the texts of the scalars, where the specification takes them from the standard library
fn run(op: &str, t: &str, nm: &str, k: Kind, w: usize, n: usize, f: &dyn Fn(&[u8], usize) -> String, x: &dyn Fn(&[u8], usize) -> Vec<String>) {
    let mut r = rng(op, t, nm);
    // every combination of flags in the table, for every type
    for c in 0..FLAGS.len() * lg().scale {
        let j = c % FLAGS.len();
        let (wd, fl, al, plus, alt, zero) = FLAGS[j];
        let a = gen(&mut r, k, w, n);
        // now and then the sink fails somewhere in the text
        let room = if r.below(4) == 0 { r.below(t.len() + 12 * n) as i64 } else { -1 };
        let xs = x(&a, j);
        unsafe { ROOM = if room < 0 { usize::MAX } else { room as usize } };
        let res = catch(|| f(&a, j));
        unsafe { ROOM = usize::MAX };
        let e = lg().ev(op, t).s("nm", nm).b("a", &a).strs("x", &xs).i("room", room).i("e", unsafe { FAILED } as i64)
            .i("wd", wd).s("fl", fl).i("al", al).i("plus", plus).i("alt", alt).i("zero", zero);
        match res {
            Some(s) => e.s("r", &s.replace('\\', "?").replace('"', "?").replace('\n', "?")).i("p", 0).done(),
            None => e.s("r", "").i("p", 1).done(),
        }
    }
}
macro_rules! int {
    ($v:ident, $e:ident, $n:tt, $w:tt, $k:ident, $m:ident, $sm:ident) => {{
        fn go() {
            let t = stringify!($v);
            let none = |_: &[u8], _: usize| vec![];
            run("debug", t, "", Kind::$k, $w, $n, &|a, j| debug(j, &from_bytes::<$v>(a)), &none);
            run("debugx", t, "", Kind::$k, $w, $n, &|a, j| debug_x(j, &from_bytes::<$v>(a)), &none);
            run("debugX", t, "", Kind::$k, $w, $n, &|a, j| debug_upx(j, &from_bytes::<$v>(a)), &none);
            run("lowerhex", t, "", Kind::$k, $w, $n, &|a, j| lower_hex(j, &from_bytes::<$v>(a)), &none);
            run("upperhex", t, "", Kind::$k, $w, $n, &|a, j| upper_hex(j, &from_bytes::<$v>(a)), &none);
            run("octal", t, "", Kind::$k, $w, $n, &|a, j| octal(j, &from_bytes::<$v>(a)), &none);
            run("binary", t, "", Kind::$k, $w, $n, &|a, j| binary(j, &from_bytes::<$v>(a)), &none);
        }
        go();
    }};
}
macro_rules! float {
    ($v:ident, $e:ident, $n:tt, $w:tt, $k:ident, $m:ident, $sm:ident) => {{
        fn go() {
            let t = stringify!($v);
            run("debug", t, "", Kind::F, $w, $n, &|a, j| debug(j, &from_bytes::<$v>(a)), &|a, j| {
                a.chunks($w).map(|b| debug(j, &from_bytes::<$e>(b))).collect()
            });
            run("debug", t, "prec", Kind::F, $w, $n, &|a, j| debug_prec(j, &from_bytes::<$v>(a)), &|a, j| {
                a.chunks($w).map(|b| debug_prec(j, &from_bytes::<$e>(b))).collect()
            });
        }
        go();
    }};
}
macro_rules! mask {
    ($v:ident, $e:ident, $n:tt, $w:tt, $k:ident, $m:ident, $sm:ident) => {{
        fn go() {
            let t = stringify!($v);
            run("debug", t, "", Kind::M, $w, $n, &|a, j| debug(j, &from_bytes::<$v>(a)), &|_, _| vec![]);
            for &x in &[false, true] {
                let res = catch(|| format!("{:?}", $sm::new(x)));
                let e = lg().ev("smask_debug", t).s("nm", stringify!($sm)).b("a", &bb(x));
                match res {
                    Some(s) => e.s("r", &s).i("p", 0).done(),
                    None => e.s("r", "").i("p", 1).done(),
                }
            }
        }
        go();
    }};
}
macro_rules! ptr {
    ($v:ident, $c:ident, $n:tt, $m:ident, $us:ident, $is:ident) => {{
        fn go() {
            ptr!(@ $v $c $n u8 "u8");
            ptr!(@ $v $c $n i32 "i32");
            ptr!(@ $v $c $n f64 "f64");
            // pointees whose names have paths, parameters and brackets
            ptr!(@ $v $c $n Node core::any::type_name::<Node>());
            ptr!(@ $v $c $n Pair core::any::type_name::<Pair>());
            ptr!(@ $v $c $n Unit "()");
            ptr!(@ $v $c $n Thin core::any::type_name::<Thin>());
        }
        go();
    }};
    (@ $v:ident $c:ident $n:tt $T:ident $nm:expr) => {
        run("debug", stringify!($v), $nm, Kind::P, 8, $n, &|a, j| debug(j, &from_bytes::<$v<$T>>(a)), &|a, j| {
            a.chunks(8).map(|b| debug(j, &from_bytes::<*$c $T>(b))).collect()
        });
    };
}
fn main() {
    start();
    ints!(int);
    floats!(float);
    masks!(mask);
    ptrs!(ptr);
    stop();
}
