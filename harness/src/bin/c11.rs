//! C11: masked gather and scatter through pointer vectors; behaviours come from spec/SimdGen.tla.
//! Pointers of unselected lanes are null, dangling, non-canonical or valid.
use harness::*;
use packed_simd::*;

struct Api<'a> {
    t: &'a str,
    ptr: &'a str,
    mask: &'a str,
    k: Kind,
    w: usize,
    n: usize,
    mw: usize,
    /// (pointer image, mask image, fallback)
    read: F3<'a>,
    write: Option<&'a dyn Fn(&[u8], &[u8], &[u8])>,
}
fn value(r: &mut Rng, k: Kind, w: usize, n: usize) -> Vec<u8> {
    match k {
        Kind::M => gen_mask(w, n, r),
        Kind::F => (0..n).flat_map(|_| quiet(r.u128() & mask_w(w), w).to_le_bytes()[..w].to_vec()).collect(),
        _ => (0..w * n).map(|_| r.next() as u8).collect(),
    }
}
fn drive(a: &Api, ps: &[Vec<Cmd>]) {
    let mut r = rng("c11", a.t, &format!("{}{}", a.ptr, a.mask));
    let cells = 2 * a.n + 2;
    let len = cells * a.w;
    // memory ends where an inaccessible page begins
    let base = guarded(len);
    let guard = base as usize + len;
    // after the generated behaviours: every mask in turn
    let masks = if lg().scale > 8 || a.n < 8 { 1 << a.n } else { 48 };
    let mut each: Vec<Vec<Cmd>> = vec![];
    for i in 0..masks {
        let m = if masks == 48 { r.below(256) } else { i };
        each.push(vec![("g_read".to_string(), [1, 1, [4, 6][i % 2], 100 + m]), ("g_write".to_string(), [0, 2, [6, 4][i % 2], 100 + m])]);
    }
    let mut runs = pick(ps, &format!("{}{}{}", a.t, a.ptr, a.mask), 2 * lg().scale);
    runs.extend(each.iter());
    for p in runs {
        let mut g: Vec<Vec<u8>> = (0..3).map(|_| value(&mut r, a.k, a.w, a.n)).collect();
        let init = value(&mut r, a.k, a.w, cells);
        unsafe { core::slice::from_raw_parts_mut(base, len) }.copy_from_slice(&init);
        lg().begin(a.t, &g, &init);
        for (op, [d, s, pat, msk]) in p {
            let n = a.n;
            let on: Vec<bool> = (0..n)
                .map(|i| match msk {
                    _ if *msk >= 100 => (*msk - 100) >> i & 1 == 1,
                    0 => false,
                    1 => true,
                    2 => i == 0,
                    3 => i == n - 1,
                    4 => i % 2 == 0,
                    _ => r.below(2) == 0,
                })
                .collect();
            // a permutation of the lanes; pattern 7 keeps the first and the last in place
            let mut perm: Vec<usize> = (0..n).collect();
            let (lo, hi) = if *pat == 7 { (1, n - 1) } else { (0, n) };
            for i in lo..hi {
                perm.swap(i, i + r.below(hi - i));
            }
            let shift = r.below(cells - n);
            let x: Vec<i64> = (0..n)
                .map(|i| {
                    if !on[i] && r.below(4) != 0 {
                        return -1;
                    }
                    (match pat {
                        0 => i,
                        1 => n - 1 - i,
                        2 => 1,
                        3 => i / 2,
                        4 => r.below(cells),
                        6 | 7 => shift + perm[i],
                        8 => 2 * i,
                        9 => cells - 1 - i,
                        _ => i + 1 + r.below(n),
                    }) as i64
                })
                .collect();
            let mut pi = vec![];
            for i in 0..n {
                let ad = if x[i] >= 0 {
                    base as usize + x[i] as usize * a.w
                } else {
                    [guard, 0usize, 16, 0x10_0000, 0xdead_beef_dead_bee0, usize::MAX & !15, base as usize ^ (1 << 60)][r.below(7)]
                };
                put(&mut pi, ad as u128, 8);
            }
            let mi: Vec<u8> = on.iter().flat_map(|&b| vec![if b { 255u8 } else { 0 }; a.mw]).collect();
            let src = g[*s - 1].clone();
            let write = op == "g_write" && a.write.is_some();
            if op == "g_write" && !write {
                continue;
            }
            let res = if write {
                catch(|| { (a.write.unwrap())(&pi, &mi, &src); vec![] })
            } else {
                catch(|| (a.read)(&pi, &mi, &src))
            };
            if !write {
                if let Some(v) = &res {
                    g[*d - 1] = v.clone();
                }
            }
            let mem = unsafe { core::slice::from_raw_parts(base, len) };
            let k: Vec<i64> = on.iter().map(|&b| b as i64).collect();
            lg().ev(op, a.t)
                .s("pt", a.ptr)
                .s("mk", a.mask)
                .i("d", *d as i64)
                .i("s", *s as i64)
                .ints("x", &x)
                .ints("k", &k)
                .bs("g", &g)
                .b("m", mem)
                .r(res);
        }
    }
}
static mut PS: Vec<Vec<Cmd>> = vec![];
macro_rules! gs {
    ($v:ident $e:ty, $k:ident $w:tt $n:tt; $c:ident $p:ident $m:ident $mw:tt) => {{
        fn go() {
            let vv = |b: &[u8]| from_bytes::<$v>(b);
            let mm = |b: &[u8]| from_bytes::<$m>(b);
            // read-only pointers, then mutable ones
            drive(
                &Api {
                    t: stringify!($v), ptr: stringify!($c), mask: stringify!($m), k: Kind::$k, w: $w, n: $n, mw: $mw,
                    read: &|p, m, v| to_bytes(&unsafe { from_bytes::<$c<$e>>(p).read(mm(m), vv(v)) }),
                    write: None,
                },
                unsafe { &PS },
            );
            drive(
                &Api {
                    t: stringify!($v), ptr: stringify!($p), mask: stringify!($m), k: Kind::$k, w: $w, n: $n, mw: $mw,
                    read: &|p, m, v| to_bytes(&unsafe { from_bytes::<$p<$e>>(p).read(mm(m), vv(v)) }),
                    write: Some(&|p, m, v| unsafe { from_bytes::<$p<$e>>(p).write(mm(m), vv(v)) }),
                },
                unsafe { &PS },
            );
        }
        go();
    }};
}
include!("../gen/gather.rs");
fn main() {
    start();
    unsafe { PS = programs() };
    list_gather();
    stop();
}
