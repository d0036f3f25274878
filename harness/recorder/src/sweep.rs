//! Lane sweeps.  A table holds, for one operation on one lane type, every distinct
//! outcome observed for each operand tuple of a pool: in all vector types with that
//! lane type, all operator forms, many lane positions and neighbours.  Only the
//! distinct (operands, outcome) tuples are logged, for the specification to judge.
use crate::*;
use std::collections::BTreeMap;

pub struct Pool {
    pub t: Vec<[u128; 3]>,
    pub by_a: Vec<Vec<u32>>,
    pub by_b: Vec<Vec<u32>>,
}
impl Pool {
    /// all pairs of `a` and `b` for which `ok`, and the `extra` ones
    pub fn grid(a: &[u128], b: &[u128], extra: &[[u128; 3]], ok: &dyn Fn(u128, u128) -> bool) -> Pool {
        let mut p = Pool { t: vec![], by_a: vec![vec![]; a.len()], by_b: vec![vec![]; b.len()] };
        for (i, &x) in a.iter().enumerate() {
            for (j, &y) in b.iter().enumerate() {
                if ok(x, y) {
                    let k = p.t.len() as u32;
                    p.t.push([x, y, 0]);
                    p.by_a[i].push(k);
                    p.by_b[j].push(k);
                }
            }
        }
        for &[x, y, z] in extra {
            if ok(x, y) {
                p.t.push([x, y, z]);
            }
        }
        p
    }
    pub fn list(t: Vec<[u128; 3]>) -> Pool {
        Pool { t, by_a: vec![], by_b: vec![] }
    }
    pub fn single(a: &[u128]) -> Pool {
        Pool::list(a.iter().map(|&x| [x, 0, 0]).collect())
    }
}
#[derive(Clone)]
pub struct LaneOp<'a> {
    pub op: &'a str,
    /// lane type of the operands, widths of their lanes (0: absent)
    pub k: Kind,
    pub w: [usize; 3],
    /// lane type of the result of a conversion
    pub u: Option<(Kind, usize)>,
    pub rw: usize,
    pub z: usize,
    /// tables with different pools
    pub tag: &'a str,
}
struct Table {
    k: Kind,
    w: [usize; 3],
    u: Option<(Kind, usize)>,
    rw: usize,
    z: usize,
    t: Vec<[u128; 3]>,
    seen: Vec<bool>,
    r: Vec<u8>,
    more: BTreeMap<(u32, Vec<u8>), (String, usize)>,
    obs: u64,
}
static mut TABLES: BTreeMap<String, Table> = BTreeMap::new();

fn kind(k: Kind) -> &'static str {
    match k {
        Kind::I => "i",
        Kind::U => "u",
        Kind::F => "f",
        Kind::M => "m",
        Kind::P => "p",
    }
}
pub fn shuffled(r: &mut Rng, v: &[u32]) -> Vec<u32> {
    let mut v = v.to_vec();
    for i in (1..v.len()).rev() {
        v.swap(i, r.below(i + 1));
    }
    v
}
/// Runs `f` (one vector operation on `n` lanes) over the whole pool, every tuple in
/// about `cover` lane positions.  `form`: vv, av (all operands vectors), vs, as (second
/// operand a scalar of `sw` bytes), sv (first operand a scalar).
pub fn sweep(o: &LaneOp, t: &str, form: &str, n: usize, sw: usize, pool: &Pool, cover: usize, f: F3) {
    let tables = unsafe { &mut *core::ptr::addr_of_mut!(TABLES) };
    let key = format!("{}/{}{}/{}/{}{}", o.op, kind(o.k), o.w[0], o.u.map_or(String::new(), |(k, w)| format!("{}{}", kind(k), w)), o.z, o.tag);
    let tab = tables.entry(key).or_insert_with(|| Table {
        k: o.k, w: o.w, u: o.u, rw: o.rw, z: o.z, t: pool.t.clone(),
        seen: vec![false; pool.t.len()], r: vec![0; pool.t.len() * o.rw], more: BTreeMap::new(), obs: 0,
    });
    assert_eq!(tab.t.len(), pool.t.len());
    let mut r = rng(o.op, t, form);
    let all: Vec<u32> = (0..pool.t.len() as u32).collect();
    let one = [all];
    let groups: &[Vec<u32>] = match form {
        "vs" | "as" => &pool.by_b,
        "sv" => &pool.by_a,
        _ => &one,
    };
    let (mut a, mut b, mut c) = (vec![], vec![], vec![]);
    // Besides: vectors of few tuples, all lanes alike, in halves, alternating, one lane
    // unlike the others, mirrored.
    let mut layouts: Vec<Vec<u32>> = vec![];
    if n > 1 {
        let per = if groups.len() == 1 { core::cmp::min(1200, 2 * pool.t.len()) } else { 6 };
        for g in groups.iter().filter(|g| !g.is_empty()) {
            for q in 0..per {
                let (x, y) = (g[r.below(g.len())], g[r.below(g.len())]);
                let at = r.below(n);
                let m = r.next();
                layouts.push((0..n).map(|i| match q % 6 {
                    0 | 1 => x,
                    2 => if i == at { y } else { x },
                    3 => if i < n / 2 { x } else { y },
                    4 => if (i ^ at) % 2 == 0 { x } else { y },
                    _ => g[(m as usize).wrapping_add(core::cmp::min(i, n - 1 - i) * 7) % g.len()],
                }).collect());
            }
        }
    }
    for g in groups {
        if g.is_empty() {
            continue;
        }
        let ord = shuffled(&mut r, g);
        let step = core::cmp::max(1, n / cover);
        let mut j = 0;
        while j < ord.len() {
            layouts.push((0..n).map(|i| ord[(j + i) % ord.len()]).collect());
            j += step;
        }
    }
    {
        for l in &layouts {
            a.clear();
            b.clear();
            c.clear();
            for i in 0..n {
                let x = &pool.t[l[i] as usize];
                if i == 0 || form != "sv" {
                    put(&mut a, x[0], if form == "sv" { sw } else { o.w[0] });
                }
                if i == 0 || (form != "vs" && form != "as") {
                    put(&mut b, x[1], if form == "vs" || form == "as" { sw } else { o.w[1] });
                }
                put(&mut c, x[2], o.w[2]);
            }
            match catch(|| f(&a, &b, &c)) {
                None => {
                    // no operand of the pool may panic; the event goes to the judge as it is
                    let e = lg().ev(o.op, t).s("f", form).s("u", t).i("z", o.z as i64).b("a", &a).b("b", &b).b("c", &c);
                    e.r(None);
                }
                Some(res) => {
                    assert_eq!(res.len(), n * o.rw);
                    for i in 0..n {
                        let k = l[i] as usize;
                        let got = &res[i * o.rw..(i + 1) * o.rw];
                        let slot = &mut tab.r[k * o.rw..(k + 1) * o.rw];
                        tab.obs += 1;
                        if !tab.seen[k] {
                            tab.seen[k] = true;
                            slot.copy_from_slice(got);
                        } else if slot != got && tab.more.len() < 5000 {
                            tab.more.entry((k as u32, got.to_vec())).or_insert_with(|| (t.to_string(), i));
                        }
                    }
                }
            }
        }
    }
}
fn event(op: &str, tab: &Table, ks: &[usize], rs: &[u8], obs: u64, at: &str) {
    let mut v = [vec![], vec![], vec![]];
    for &k in ks {
        for j in 0..3 {
            put(&mut v[j], tab.t[k][j], tab.w[j]);
        }
    }
    let mut e = lg().ev(op, "lane").s("f", "vv").s("lk", kind(tab.k)).i("lw", tab.w[0] as i64);
    if let Some((k, w)) = tab.u {
        e = e.s("u", "lane").s("uk", kind(k)).i("uw", w as i64);
    }
    e.i("z", tab.z as i64).i("obs", obs as i64).s("at", at)
        .b("a", &v[0]).b("b", &v[1]).b("c", &v[2])
        .r(Some(rs.to_vec()));
}
pub fn emit() {
    let tables = unsafe { &mut *core::ptr::addr_of_mut!(TABLES) };
    for (key, tab) in tables.iter() {
        let op = key.split('/').next().unwrap();
        let ks: Vec<usize> = (0..tab.t.len()).filter(|&k| tab.seen[k]).collect();
        let mut obs = tab.obs;
        for c in ks.chunks(64) {
            let rs: Vec<u8> = c.iter().flat_map(|&k| tab.r[k * tab.rw..(k + 1) * tab.rw].to_vec()).collect();
            event(op, tab, c, &rs, obs, "");
            obs = 0;
        }
        for ((k, r), (t, i)) in tab.more.iter() {
            event(op, tab, &[*k as usize], r, 0, &format!("{} lane {}", t, i));
        }
    }
    tables.clear();
}

// ------------------------------------------------------------------ pools ---
pub fn deep() -> bool {
    lg().scale >= 8
}
/// lane values: all of them for one byte, otherwise edges, powers of two and others
pub fn ints_of(w: usize, count: usize, salt: &str) -> Vec<u128> {
    if w == 1 {
        return (0..256).collect();
    }
    let mut v: Vec<u128> = vec![];
    let mut add = |x: u128| if !v.contains(&x) { v.push(x) };
    for x in int_edges(w) {
        add(x);
    }
    let mut r = Rng::new(lg().seed, &format!("pool{}{}", w, salt));
    let mut left = 100 * count;
    while v.len() < count && left > 0 {
        left -= 1;
        let x = gen_int(&mut r, w);
        let mut add = |x: u128| if !v.contains(&x) { v.push(x) };
        add(x);
    }
    v
}
/// pairs that are close: equal, neighbours, one bit apart, negations
pub fn close_pairs(w: usize, count: usize, salt: &str) -> Vec<[u128; 3]> {
    let mut r = Rng::new(lg().seed, &format!("close{}{}", w, salt));
    let m = mask_w(w);
    (0..count)
        .map(|_| {
            let x = gen_int(&mut r, w);
            let y = match r.below(7) {
                0 => x,
                1 => x.wrapping_add(1),
                2 => x.wrapping_sub(1),
                3 | 4 => x ^ (1u128 << r.below(8 * w)),
                5 => x.wrapping_neg(),
                _ => !x,
            };
            [x, y & m, 0]
        })
        .collect()
}
/// float pairs that are close: equal, opposite, one ulp apart
pub fn close_floats(w: usize, count: usize, salt: &str) -> Vec<[u128; 3]> {
    let mut r = Rng::new(lg().seed, &format!("fclose{}{}", w, salt));
    (0..count)
        .map(|_| {
            let x = gen_float(&mut r, w);
            let y = match r.below(5) {
                0 => x,
                1 => x ^ (1u128 << (8 * w - 1)),
                2 => x.wrapping_add(1) & mask_w(w),
                3 => x.wrapping_sub(1) & mask_w(w),
                _ => x ^ (1u128 << r.below(8 * w)),
            };
            [x, quiet(y, w), 0]
        })
        .collect()
}
pub fn floats_of(w: usize, count: usize, salt: &str) -> Vec<u128> {
    let mut v: Vec<u128> = float_edges(w);
    let mut r = Rng::new(lg().seed, &format!("fpool{}{}", w, salt));
    while v.len() < count {
        v.push(gen_float(&mut r, w));
    }
    v.truncate(core::cmp::max(count, 1));
    v
}

/// pools are made once
pub fn pool(key: &str, make: &dyn Fn() -> Pool) -> &'static Pool {
    static mut POOLS: BTreeMap<String, Box<Pool>> = BTreeMap::new();
    let ps = unsafe { &mut *core::ptr::addr_of_mut!(POOLS) };
    if !ps.contains_key(key) {
        ps.insert(key.to_string(), Box::new(make()));
    }
    &ps[key]
}
