//! C15: bit counting.
use harness::*;
use packed_simd::*;

fn gen(r: &mut Rng, k: Kind, w: usize, n: usize) -> Vec<u8> {
    if r.below(2) == 0 {
        return gen_vec(r, k, w, n);
    }
    // runs of ones and zeros
    let mut v = vec![];
    for _ in 0..n {
        let bits = 8 * w;
        let lo = r.below(bits + 1);
        let len = r.below(bits + 1 - lo.min(bits));
        let run = if len >= 128 { !0 } else { (1u128 << len) - 1 };
        let x = if lo >= 128 { 0 } else { run << lo };
        put(&mut v, (if r.below(4) == 0 { !x } else { x }) & mask_w(w), w);
    }
    v
}
fn count(op: &str, t: &str, k: Kind, w: usize, n: usize, f: F1) {
    let p = pool(&format!("{}", w), &|| {
        let c = if deep() { 100000 } else { 20000 };
        if w <= 2 {
            return Pool::single(&(0..1u128 << (8 * w)).collect::<Vec<_>>());
        }
        let mut r = Rng::new(lg().seed, "c15");
        let mut v = int_edges(w);
        for i in 0..8 * w {
            v.push(1 << i);
            v.push(!(1 << i) & mask_w(w));
            v.push(mask_w(w) >> i);
            v.push(mask_w(w) << i & mask_w(w));
        }
        while v.len() < c {
            v.push(lane(&gen(&mut r, k, w, 1), w, 0));
        }
        v.sort();
        v.dedup();
        Pool::single(&v)
    });
    let o = LaneOp { op, k: Kind::U, w: [w, 0, 0], u: None, rw: w, z: 0, tag: "" };
    sweep(&o, t, "vv", n, w, p, 2, &|a, _, _| f(a));
    run1(op, t, lg().reps(n, 64), &|r: &mut Rng| gen(r, k, w, n), f);
}
macro_rules! cnt {
    ($v:ident, $e:ident, $n:literal, $w:literal, $k:ident, $m:ident, $sm:ident) => {{
        fn go() {
            let t = stringify!($v);
            let fs: [(&str, F1); 4] = [
                ("count_ones", &|a| to_bytes::<$v>(&from_bytes::<$v>(a).count_ones())),
                ("count_zeros", &|a| to_bytes::<$v>(&from_bytes::<$v>(a).count_zeros())),
                ("leading_zeros", &|a| to_bytes::<$v>(&from_bytes::<$v>(a).leading_zeros())),
                ("trailing_zeros", &|a| to_bytes::<$v>(&from_bytes::<$v>(a).trailing_zeros())),
            ];
            for (op, f) in fs.iter() {
                count(op, t, Kind::$k, $w, $n, f);
            }
        }
        go();
    }};
}
fn main() {
    start();
    ints!(cnt);
    stop();
}
