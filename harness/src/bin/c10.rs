//! C10: loads from and stores to slices; behaviours come from spec/SimdGen.tla.
//! After every call the whole buffer, with slack on both ends, is logged.
use harness::*;
use packed_simd::*;

struct Api<'a> {
    t: &'a str,
    k: Kind,
    w: usize,
    n: usize,
    align: usize,      // of the vector
    unit: usize,       // alignment of an element
    load: &'a dyn Fn(usize, *const u8, usize) -> Vec<u8>,
    store: &'a dyn Fn(usize, *mut u8, usize, &[u8]),
}
fn value(r: &mut Rng, k: Kind, w: usize, n: usize) -> Vec<u8> {
    match k {
        Kind::F => (0..n).flat_map(|_| quiet(r.u128() & mask_w(w), w).to_le_bytes()[..w].to_vec()).collect(),
        _ => (0..w * n).map(|_| r.next() as u8).collect(),
    }
}
const KINDS: [&str; 8] =
    ["m_load_a", "m_load_u", "m_load_au", "m_load_uu", "m_store_a", "m_store_u", "m_store_au", "m_store_uu"];
fn drive(a: &Api, ps: &[Vec<Cmd>]) {
    let mut r = rng("c10", a.t, "");
    let size = a.w * a.n;
    // memory ends where an inaccessible page begins
    let len = 4 * size + a.align.max(a.w);
    let base = guarded(len);
    // after the generated behaviours: every start and every length in turn
    let mut each: Vec<Vec<Cmd>> = vec![];
    let starts = 2 * size / a.unit;
    let sparse = |i: usize, n: usize| n <= 48 || i < 4 || i % 5 == 0 || lg().scale > 8;
    for i in 0..=starts {
        if sparse(i, starts) {
            each.push(["m_load_a", "m_load_u", "m_load_uu", "m_store_a", "m_store_u", "m_store_uu"].iter().map(|o| (o.to_string(), [1, 2, 100 + i, 3])).collect());
        }
    }
    for i in 0..=2 * a.n {
        if sparse(i, 2 * a.n) || i + 2 > a.n && i < a.n + 2 {
            each.push(["m_load_a", "m_load_u", "m_store_a", "m_store_u"].iter().map(|o| (o.to_string(), [1, 2, 0, 100 + i])).collect());
        }
    }
    let mut runs = pick(ps, a.t, 4 * lg().scale);
    runs.extend(each.iter());
    for p in runs {
        let mut g: Vec<Vec<u8>> = (0..3).map(|_| value(&mut r, a.k, a.w, a.n)).collect();
        let init = value(&mut r, a.k, a.w, len / a.w);
        let mem = unsafe { core::slice::from_raw_parts_mut(base, len) };
        mem.copy_from_slice(&init);
        lg().begin(a.t, &g, mem);
        for (op, [d, s, at, ln]) in p {
            let at = match at {
                _ if *at >= 100 => (*at - 100) * a.unit,
                0 => 0,
                1 => size,
                2 => a.unit,
                3 => size + a.unit,
                4 => 2 * size - a.unit,
                6 => a.unit * r.below(2 * size / a.unit + 1),
                7 => len - size - a.unit * r.below(2),
                _ => if size / 2 >= a.unit { size / 2 } else { a.unit },
            };
            let ln = if *ln >= 100 { *ln - 100 } else { [0, 1, a.n - 1, a.n, a.n + 1, 2 * a.n, r.below(a.n), a.n + r.below(a.n)][*ln] }.min((len - at) / a.w);
            let k = KINDS.iter().position(|x| x == op).unwrap();
            let ptr = unsafe { base.add(at) };
            let res = if k < 4 {
                catch(|| (a.load)(k, ptr, ln))
            } else {
                let v = g[*s - 1].clone();
                catch(|| { (a.store)(k, ptr, ln, &v); vec![] })
            };
            if k < 4 {
                if let Some(v) = &res {
                    g[*d - 1] = v.clone();
                }
            }
            let mem = unsafe { core::slice::from_raw_parts(base, len) };
            lg().ev(op, a.t)
                .i("d", *d as i64)
                .i("s", *s as i64)
                .i("at", at as i64)
                .i("len", ln as i64)
                .i("al", a.align as i64)
                .bs("g", &g)
                .b("m", mem)
                .r(res);
        }
    }
}
/// Slices with very many elements: the memory in the log is the beginning of the slice
/// followed by what surrounds its end (and lengths are cut off at 2^30).
fn long(a: &Api) {
    static mut AREA: Option<Option<*mut u8>> = None;
    let top = (1usize << 32) + 64;
    let base = match unsafe { *(*core::ptr::addr_of_mut!(AREA)).get_or_insert_with(|| reserve(16 * top + 8192)) } {
        Some(p) => p,
        None => return,
    };
    let mut r = rng("c10", a.t, "long");
    let size = a.w * a.n;
    let front = 2 * size + a.align;
    for (j, len) in [128, 256, 256 + a.n - 1, 65536, 65536 + a.n - 1, 1 << 31, 1 << 32, (1 << 32) + a.n - 1].iter().copied().enumerate() {
        let end = len * a.w;
        if end < front + size {
            continue;
        }
        let mut g: Vec<Vec<u8>> = (0..2).map(|_| value(&mut r, a.k, a.w, a.n)).collect();
        let (f, b) = unsafe { (core::slice::from_raw_parts_mut(base, front), core::slice::from_raw_parts_mut(base.add(end - size), 2 * size)) };
        f.copy_from_slice(&value(&mut r, a.k, a.w, front / a.w));
        b.copy_from_slice(&value(&mut r, a.k, a.w, 2 * a.n));
        let mem = |f: &[u8], b: &[u8]| f.iter().chain(b.iter()).copied().collect::<Vec<u8>>();
        lg().begin(a.t, &g, &mem(f, b));
        for op in ["m_load_a", "m_load_u", "m_store_a", "m_store_u"].iter() {
            let at = if j % 2 == 0 || a.t.len() % 2 == 0 { 0 } else { a.unit };
            let k = KINDS.iter().position(|x| x == op).unwrap();
            let ptr = unsafe { base.add(at) };
            let v = g[1].clone();
            let res = if k < 4 {
                catch(|| (a.load)(k, ptr, len))
            } else {
                catch(|| { (a.store)(k, ptr, len, &v); vec![] })
            };
            if k < 4 {
                if let Some(v) = &res {
                    g[0] = v.clone();
                }
            }
            lg().ev(op, a.t).i("d", 1).i("s", 2).i("at", at as i64).i("len", len.min(1 << 30) as i64).i("al", a.align as i64)
                .bs("g", &g).b("m", &mem(f, b)).r(res);
        }
    }
}
static mut PS: Vec<Vec<Cmd>> = vec![];
macro_rules! api {
    ($t:expr, $v:ty, $e:ty, $n:tt, $w:tt, $k:ident) => {
        let api = Api {
                t: $t,
                k: Kind::$k,
                w: $w,
                n: $n,
                align: core::mem::align_of::<$v>(),
                unit: core::mem::align_of::<$e>(),
                load: &|k, p, len| unsafe {
                    let s = core::slice::from_raw_parts(p as *const $e, len);
                    to_bytes(&match k {
                        0 => <$v>::from_slice_aligned(s),
                        1 => <$v>::from_slice_unaligned(s),
                        2 => <$v>::from_slice_aligned_unchecked(s),
                        _ => <$v>::from_slice_unaligned_unchecked(s),
                    })
                },
                store: &|k, p, len, v| unsafe {
                    let s = core::slice::from_raw_parts_mut(p as *mut $e, len);
                    let v = from_bytes::<$v>(v);
                    match k {
                        4 => v.write_to_slice_aligned(s),
                        5 => v.write_to_slice_unaligned(s),
                        6 => v.write_to_slice_aligned_unchecked(s),
                        _ => v.write_to_slice_unaligned_unchecked(s),
                    }
                },
            };
        drive(&api, unsafe { &PS });
        long(&api);
    };
}
macro_rules! iuf {
    ($v:ident, $e:ident, $n:tt, $w:tt, $k:ident, $m:ident, $sm:ident) => {{
        fn go() { api!(stringify!($v), $v, $e, $n, $w, $k); }
        go();
    }};
}
macro_rules! ptr {
    ($v:ident, $c:ident, $n:tt, $m:ident, $us:ident, $is:ident) => {{
        fn go() { api!(stringify!($v), $v<u16>, *$c u16, $n, 8, P); }
        go();
    }};
}
fn main() {
    start();
    unsafe { PS = programs() };
    ints!(iuf);
    floats!(iuf);
    ptrs!(ptr);
    stop();
}
