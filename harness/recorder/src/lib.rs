//! Trace recorder for packed_simd: runs public operations and logs, as ndjson,
//! what went in and what came out (raw lane bytes).  It computes no expected
//! values: the judge is the TLA+ specification in /verif/spec.
#![allow(clippy::all)]
use std::fs::File;
use std::io::{BufWriter, Write};

pub mod sweep;
pub use sweep::*;

// ---------------------------------------------------------------- random ----
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, salt: &str) -> Rng {
        let mut h: u64 = 0xcbf29ce484222325 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
        for b in salt.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        let mut r = Rng(h);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn u128(&mut self) -> u128 {
        ((self.next() as u128) << 64) | self.next() as u128
    }
}

// ------------------------------------------------------------------ bytes ---
pub fn to_bytes<T: Copy>(x: &T) -> Vec<u8> {
    let n = core::mem::size_of::<T>();
    let mut v = vec![0u8; n];
    unsafe { core::ptr::copy_nonoverlapping(x as *const T as *const u8, v.as_mut_ptr(), n) };
    v
}
pub fn from_bytes<T: Copy>(b: &[u8]) -> T {
    assert_eq!(b.len(), core::mem::size_of::<T>());
    unsafe { core::ptr::read_unaligned(b.as_ptr() as *const T) }
}

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
}
/// `len` bytes that end where an inaccessible page begins (never freed).
pub fn guarded(len: usize) -> *mut u8 {
    const PAGE: usize = 4096;
    let n = (len + PAGE - 1) / PAGE * PAGE;
    unsafe {
        let p = mmap(core::ptr::null_mut(), n + PAGE, 3, 0x22, -1, 0);
        assert!(p as isize != -1);
        assert!(mprotect(p.add(n), PAGE, 0) == 0);
        p.add(n - len)
    }
}

/// Address space of `n` bytes, of which only the touched pages become memory.
pub fn reserve(n: usize) -> Option<*mut u8> {
    let p = unsafe { mmap(core::ptr::null_mut(), n, 3, 0x4022, -1, 0) };
    if p as isize == -1 { None } else { Some(p) }
}

/// Runs `f`; `None` if it panicked.
pub fn catch<R>(f: impl FnOnce() -> R) -> Option<R> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}

// ------------------------------------------------------------- lane pools ---
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    I,
    U,
    F,
    M,
    P,
}

pub fn mask_w(w: usize) -> u128 {
    if w == 16 {
        !0
    } else {
        (1u128 << (8 * w)) - 1
    }
}

/// Interesting integer lane values (as raw bits).
pub fn int_edges(w: usize) -> Vec<u128> {
    let bits = 8 * w as u32;
    let m = mask_w(w);
    let top = 1u128 << (bits - 1);
    let mut v = vec![
        0,
        1,
        2,
        3,
        m,
        m - 1,
        m - 2,
        top,
        top + 1,
        top - 1,
        top - 2,
        m / 3,
        m / 3 * 2,
        (1u128 << (bits / 2)),
        (1u128 << (bits / 2)) - 1,
        (1u128 << (bits / 2)) + 1,
        (1u128 << (bits / 2 - 1)),
        top | (top >> 1),
        7,
        10,
        127 & m,
        128 & m,
        255 & m,
    ];
    for x in v.iter_mut() {
        *x &= m;
    }
    v
}
pub fn gen_int(r: &mut Rng, w: usize) -> u128 {
    let bits = 8 * w;
    let m = mask_w(w);
    match r.below(10) {
        8 | 9 => {
            // a sum of few signed powers of two: ties, carries
            let mut x = 0u128;
            for _ in 0..2 + r.below(2) {
                let p = 1u128 << r.below(bits);
                x = if r.below(2) == 0 { x.wrapping_add(p) } else { x.wrapping_sub(p) };
            }
            x & m
        }
        0 | 1 | 2 => {
            let e = int_edges(w);
            e[r.below(e.len())]
        }
        3 => (1u128 << r.below(bits)) & m,
        4 => {
            let k = r.below(bits);
            (r.u128() >> (127 - k)) & m
        }
        5 => {
            let k = r.below(bits);
            (!(r.u128() >> (127 - k))) & m
        }
        _ => r.u128() & m,
    }
}

pub fn float_edges(w: usize) -> Vec<u128> {
    if w == 4 {
        let mut v: Vec<u128> = vec![];
        for x in [
            0.0f32, 1.0, 2.0, 0.5, 1.5, 3.0, 4.0, 10.0, 0.1, 1.0 / 3.0, core::f32::consts::PI,
            core::f32::consts::E, f32::INFINITY, f32::NAN, f32::MAX, f32::MIN_POSITIVE, f32::EPSILON,
            1.0 + f32::EPSILON, 1.0 - f32::EPSILON / 2.0, 8388608.0, 8388607.5, 16777216.0, 16777215.0,
            2147483648.0, 65504.0, 0.25, 100.0, 1e-10, 1e10, 255.5, 2.5,
        ]
        .iter()
        {
            v.push(x.to_bits() as u128);
            v.push((x.to_bits() ^ 0x8000_0000) as u128);
        }
        for b in [1u32, 2, 3, 0x007f_ffff, 0x0040_0000, 0x0080_0001, 0x7f7f_fffe, 0x7fc0_1234] {
            v.push(b as u128);
            v.push((b ^ 0x8000_0000) as u128);
        }
        v
    } else {
        let mut v: Vec<u128> = vec![];
        for x in [
            0.0f64, 1.0, 2.0, 0.5, 1.5, 3.0, 4.0, 10.0, 0.1, 1.0 / 3.0, core::f64::consts::PI,
            core::f64::consts::E, f64::INFINITY, f64::NAN, f64::MAX, f64::MIN_POSITIVE, f64::EPSILON,
            1.0 + f64::EPSILON, 1.0 - f64::EPSILON / 2.0, 4503599627370496.0, 4503599627370495.5,
            9007199254740992.0, 9007199254740991.0, 9223372036854775808.0, 1e300, 1e-300, 0.25, 100.0,
            3.4028234663852886e38, 1.1754943508222875e-38, 16777217.0, 16777219.0, 255.5, 2.5,
        ]
        .iter()
        {
            v.push(x.to_bits() as u128);
            v.push((x.to_bits() ^ (1 << 63)) as u128);
        }
        for b in [1u64, 2, 3, 0x000f_ffff_ffff_ffff, 0x0008_0000_0000_0000, 0x0010_0000_0000_0001,
            0x7fef_ffff_ffff_fffe, 0x7ff8_0000_0000_1234]
        {
            v.push(b as u128);
            v.push((b ^ (1 << 63)) as u128);
        }
        v
    }
}
/// A float lane; never a signalling NaN.
pub fn gen_float(r: &mut Rng, w: usize) -> u128 {
    let x = match r.below(8) {
        0 | 1 => {
            let e = float_edges(w);
            e[r.below(e.len())]
        }
        2 => {
            // any bit pattern
            r.u128() & mask_w(w)
        }
        3 => {
            // small integers and halves
            let k = r.below(4001) as f64 - 2000.0;
            let k = if r.below(2) == 0 { k } else { k / 8.0 };
            if w == 4 { (k as f32).to_bits() as u128 } else { k.to_bits() as u128 }
        }
        4 => {
            // few significant bits, moderate exponent: exercises ties
            let m = (r.below(256) as f64 + 1.0) * (2.0f64).powi(r.below(70) as i32 - 40);
            let m = if r.below(2) == 0 { m } else { -m };
            if w == 4 { (m as f32).to_bits() as u128 } else { m.to_bits() as u128 }
        }
        _ => {
            // moderate exponent, full mantissa
            if w == 4 {
                let ex = 127 - 14 + r.below(29) as u32;
                (((r.next() as u32) & 0x807f_ffff) | (ex << 23)) as u128
            } else {
                let ex = 1023 - 28 + r.below(57) as u64;
                ((r.next() & 0x800f_ffff_ffff_ffff) | (ex << 52)) as u128
            }
        }
    };
    quiet(x, w)
}
/// Turns a signalling NaN into a quiet one.
pub fn quiet(x: u128, w: usize) -> u128 {
    if w == 4 {
        let b = x as u32;
        if f32::from_bits(b).is_nan() { (b | 0x0040_0000) as u128 } else { x }
    } else {
        let b = x as u64;
        if f64::from_bits(b).is_nan() { (b | 0x0008_0000_0000_0000) as u128 } else { x }
    }
}
pub fn gen_lane(r: &mut Rng, k: Kind, w: usize) -> u128 {
    match k {
        Kind::I | Kind::U => gen_int(r, w),
        Kind::P => match r.below(6) {
            0 => 0,
            1 => r.below(4096) as u128,
            _ => gen_int(r, w),
        },
        Kind::F => gen_float(r, w),
        Kind::M => {
            if r.below(2) == 0 {
                0
            } else {
                mask_w(w)
            }
        }
    }
}
pub fn put(out: &mut Vec<u8>, x: u128, w: usize) {
    out.extend_from_slice(&x.to_le_bytes()[..w]);
}
pub fn gen_vec(r: &mut Rng, k: Kind, w: usize, n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(w * n);
    // shapes: all lanes equal, two values alternating or in halves, one lane unlike the
    // others, consecutive values; otherwise independent lanes (masks vary their density)
    let shape = r.below(16);
    let dens = r.below(5);
    let at = r.below(n.max(1));
    let first = gen_lane(r, k, w);
    let second = gen_lane(r, k, w);
    for i in 0..n {
        let x = match shape {
            0 | 1 => first,
            2 => if i % 2 == 0 { first } else { second },
            3 => if i < n / 2 { first } else { second },
            4 | 5 => if i == at { second } else { first },
            6 if k == Kind::I || k == Kind::U || k == Kind::P => first.wrapping_add(i as u128) & mask_w(w),
            6 if k == Kind::F && w == 4 => (i as f32 - at as f32).to_bits() as u128,
            6 if k == Kind::F => (i as f64 - at as f64).to_bits() as u128,
            _ if k == Kind::M => {
                let t = match dens {
                    0 => r.below(16) == 0,
                    1 => r.below(16) != 0,
                    _ => r.below(2) == 0,
                };
                if t { mask_w(w) } else { 0 }
            }
            _ => gen_lane(r, k, w),
        };
        put(&mut v, x, w);
    }
    v
}
pub fn lane(v: &[u8], w: usize, i: usize) -> u128 {
    let mut b = [0u8; 16];
    b[..w].copy_from_slice(&v[i * w..(i + 1) * w]);
    u128::from_le_bytes(b)
}
/// Makes `b` a legal divisor for `a`, lane by lane (no zero, no MIN / -1).
pub fn fix_div(a: &mut Vec<u8>, b: &mut Vec<u8>, k: Kind, w: usize) {
    let (na, nb) = (a.len() / w, b.len() / w);
    let n = na.max(nb);
    for i in 0..n {
        let (ia, ib) = (if na == 1 { 0 } else { i }, if nb == 1 { 0 } else { i });
        let y = lane(b, w, ib);
        if y == 0 {
            b[ib * w] = 3;
        }
        let (x, y) = (lane(a, w, ia), lane(b, w, ib));
        if k == Kind::I && y == mask_w(w) && x == 1u128 << (8 * w - 1) {
            a[ia * w] = 5;
        }
    }
}

// ------------------------------------------------------------------- log ----
pub struct Log {
    out: Vec<BufWriter<File>>,
    pub n: usize,
    pub cur: usize,
    pub seed: u64,
    pub thorough: bool,
    pub scale: usize,
    pub sticky: bool,
}
pub struct Ev<'a> {
    log: &'a mut Log,
    s: String,
}
impl Log {
    /// usage: <bin> OUT_PREFIX SHARDS SEED SCALE
    pub fn from_args() -> Log {
        let a: Vec<String> = std::env::args().collect();
        let shards: usize = a[2].parse().unwrap();
        let seed: u64 = a[3].parse().unwrap();
        let scale: usize = a[4].parse().unwrap();
        quiet_panics();
        let out = (0..shards)
            .map(|i| BufWriter::new(File::create(format!("{}.{}.ndjson", a[1], i)).unwrap()))
            .collect();
        Log { out, n: 0, cur: 0, seed, thorough: scale > 1, scale, sticky: false }
    }
    pub fn ev<'a>(&'a mut self, op: &str, t: &str) -> Ev<'a> {
        Ev { log: self, s: format!("{{\"op\":\"{}\",\"t\":\"{}\"", op, t) }
    }
    /// All events until the next call go to the same shard (one session).
    pub fn session(&mut self) {
        self.sticky = true;
        self.cur = (self.cur + 1) % self.out.len();
    }
    /// starts a session: the registers and memory the machine starts from
    pub fn begin(&mut self, t: &str, regs: &[Vec<u8>], mem: &[u8]) {
        self.session();
        self.ev("begin", t).bs("g", regs).b("m", mem).done();
    }
    pub fn finish(mut self) {
        for o in self.out.iter_mut() {
            o.flush().unwrap();
        }
        println!("events {}", self.n);
    }
    /// how many vectors of `n` lanes to try so that about `lanes` lanes are exercised
    pub fn reps(&self, n: usize, lanes: usize) -> usize {
        core::cmp::max(4, lanes / n) * self.scale
    }
}
impl<'a> Ev<'a> {
    pub fn b(mut self, k: &str, v: &[u8]) -> Self {
        self.s.push_str(",\"");
        self.s.push_str(k);
        self.s.push_str("\":[");
        for (i, x) in v.iter().enumerate() {
            if i > 0 {
                self.s.push(',');
            }
            let _ = std::fmt::Write::write_fmt(&mut self.s, format_args!("{}", x));
        }
        self.s.push(']');
        self
    }
    pub fn bs(mut self, k: &str, v: &[Vec<u8>]) -> Self {
        self.s.push_str(&format!(",\"{}\":{:?}", k, v));
        self
    }
    pub fn strs(mut self, k: &str, v: &[String]) -> Self {
        self.s.push_str(&format!(",\"{}\":{:?}", k, v));
        self
    }
    pub fn ints(mut self, k: &str, v: &[i64]) -> Self {
        self.s.push_str(&format!(",\"{}\":{:?}", k, v));
        self
    }
    pub fn i(mut self, k: &str, v: i64) -> Self {
        self.s.push_str(&format!(",\"{}\":{}", k, v));
        self
    }
    pub fn s(mut self, k: &str, v: &str) -> Self {
        self.s.push_str(&format!(",\"{}\":\"{}\"", k, v));
        self
    }
    /// result bytes, or a panic
    pub fn r(self, v: Option<Vec<u8>>) {
        match v {
            Some(v) => self.b("r", &v).i("p", 0).done(),
            None => self.b("r", &[]).i("p", 1).done(),
        }
    }
    pub fn done(mut self) {
        self.s.push_str("}\n");
        let l = self.log;
        let k = l.cur;
        l.out[k].write_all(self.s.as_bytes()).unwrap();
        if !l.sticky {
            l.cur = (l.cur + 1) % l.out.len();
        }
        l.n += 1;
    }
}
// --------------------------------------------------------------- drivers ----
static mut LOG: Option<Log> = None;
pub fn start() {
    unsafe { LOG = Some(Log::from_args()) }
}
pub fn lg() -> &'static mut Log {
    unsafe { LOG.as_mut().unwrap() }
}
pub fn stop() {
    sweep::emit();
    unsafe { LOG.take().unwrap().finish() }
}
pub type F1<'a> = &'a dyn Fn(&[u8]) -> Vec<u8>;
pub type F2<'a> = &'a dyn Fn(&[u8], &[u8]) -> Vec<u8>;
pub type F3<'a> = &'a dyn Fn(&[u8], &[u8], &[u8]) -> Vec<u8>;
pub type Gen<'a> = &'a dyn Fn(&mut Rng) -> Vec<u8>;

static mut CYCLE: usize = 0;
/// 0, 1, 2, ... : counts the vectors generated since `rng` was last called
pub fn cyc() -> usize {
    unsafe {
        CYCLE += 1;
        CYCLE - 1
    }
}
pub fn set_lane(v: &mut [u8], w: usize, i: usize, x: u128) {
    v[i * w..(i + 1) * w].copy_from_slice(&x.to_le_bytes()[..w]);
}
pub fn rng(op: &str, t: &str, form: &str) -> Rng {
    unsafe { CYCLE = 0 };
    Rng::new(lg().seed, &format!("{}{}{}", op, t, form))
}
/// unary: `count` operands from `g`
pub fn run1(op: &str, t: &str, count: usize, g: Gen, f: F1) {
    let mut r = rng(op, t, "");
    for _ in 0..count {
        let a = g(&mut r);
        let res = catch(|| f(&a));
        lg().ev(op, t).s("f", "vv").b("a", &a).b("b", &[]).r(res);
    }
}
/// the same, with a second type name (conversions)
pub fn run1u(op: &str, t: &str, u: &str, count: usize, g: Gen, f: F1) {
    let mut r = rng(op, t, u);
    for _ in 0..count {
        let a = g(&mut r);
        let res = catch(|| f(&a));
        lg().ev(op, t).s("u", u).b("a", &a).r(res);
    }
}
pub fn run2(op: &str, t: &str, form: &str, count: usize, g: &dyn Fn(&mut Rng) -> (Vec<u8>, Vec<u8>), f: F2) {
    let mut r = rng(op, t, form);
    for _ in 0..count {
        let (a, b) = g(&mut r);
        let res = catch(|| f(&a, &b));
        lg().ev(op, t).s("f", form).b("a", &a).b("b", &b).r(res);
    }
}
/// A second operand related to the first: often sharing lanes with it.
pub fn relate(r: &mut Rng, a: &[u8], k: Kind, w: usize) -> Vec<u8> {
    let n = a.len() / w;
    let mut b = gen_vec(r, k, w, n);
    match r.below(5) {
        0 => b.copy_from_slice(a),
        1 | 2 => {
            // equal except in one lane
            let i = r.below(n);
            let l = b[i * w..(i + 1) * w].to_vec();
            b.copy_from_slice(a);
            b[i * w..(i + 1) * w].copy_from_slice(&l);
        }
        3 => {
            // each lane equal or different, at random; integer neighbours
            for i in 0..n {
                match r.below(3) {
                    0 => b[i * w..(i + 1) * w].copy_from_slice(&a[i * w..(i + 1) * w]),
                    1 if k != Kind::M && k != Kind::F => {
                        let x = lane(a, w, i);
                        let y = if r.below(2) == 0 { x.wrapping_add(1) } else { x.wrapping_sub(1) };
                        b[i * w..(i + 1) * w].copy_from_slice(&y.to_le_bytes()[..w]);
                    }
                    1 if k == Kind::F => {
                        // flip the sign, or step one ulp
                        let x = lane(a, w, i);
                        let y = if r.below(2) == 0 { x ^ (1u128 << (8 * w - 1)) } else { x ^ 1 };
                        b[i * w..(i + 1) * w].copy_from_slice(&quiet(y, w).to_le_bytes()[..w]);
                    }
                    _ => {}
                }
            }
        }
        _ => {}
    }
    b
}
/// dev-time convenience: bytes of a bool
pub fn bb(b: bool) -> Vec<u8> {
    vec![b as u8]
}
/// Masks with none, one, two, all but one, all, or random lanes set.
pub fn gen_mask(w: usize, n: usize, r: &mut Rng) -> Vec<u8> {
    let mut on = vec![false; n];
    match r.below(6) {
        0 => {}
        1 => on[r.below(n)] = true,
        2 => {
            on = vec![true; n];
            on[r.below(n)] = false
        }
        3 => on = vec![true; n],
        4 => {
            on[r.below(n)] = true;
            on[r.below(n)] = true
        }
        _ => {
            for x in on.iter_mut() {
                *x = r.below(2) == 0
            }
        }
    }
    on.iter().flat_map(|&x| vec![if x { 255u8 } else { 0 }; w]).collect()
}

// ------------------------------------------------- behaviours from the spec ---
pub type Cmd = (String, [usize; 4]);
/// Behaviours generated by spec/SimdGen.tla: one per line, [["op",d,s,p,q],...]
pub fn programs() -> Vec<Vec<Cmd>> {
    let path = std::env::args().nth(5).expect("programs file");
    let text = std::fs::read_to_string(path).unwrap();
    text.lines()
        .map(|l| {
            l.trim_start_matches('[')
                .trim_end_matches(']')
                .split("],[")
                .map(|c| {
                    let f: Vec<&str> = c.split(',').collect();
                    let g = |i: usize| f[i].trim().parse::<usize>().unwrap();
                    (f[0].trim_matches('"').to_string(), [g(1), g(2), g(3), g(4)])
                })
                .collect()
        })
        .collect()
}
/// The behaviours to replay on type `t`: all single steps, and `k` long ones.
pub fn pick<'a>(ps: &'a [Vec<Cmd>], t: &str, k: usize) -> Vec<&'a Vec<Cmd>> {
    let mut v: Vec<&Vec<Cmd>> = ps.iter().filter(|p| p.len() == 1).collect();
    let long: Vec<&Vec<Cmd>> = ps.iter().filter(|p| p.len() > 1).collect();
    if !long.is_empty() {
        let at = Rng::new(lg().seed, t).below(long.len());
        for j in 0..k.min(long.len()) {
            v.push(long[(at + j) % long.len()]);
        }
    }
    v
}
/// true, for iterators that cannot tell how many items they have
#[inline(never)]
pub fn yes() -> bool {
    true
}
