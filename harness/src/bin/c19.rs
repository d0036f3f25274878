//! C19: elementary functions at the points of spec/mathref.ndjson, in every lane of every width.
use harness::*;
use packed_simd::*;

#[derive(Clone)]
struct Row {
    q: usize,
    f: String,
    w: usize,
    a: Vec<u8>,
    b: Vec<u8>,
}
fn field<'a>(l: &'a str, k: &str) -> &'a str {
    let p = format!("\"{}\":", k);
    let s = &l[l.find(&p).unwrap() + p.len()..];
    if s.starts_with('[') { &s[1..s.find(']').unwrap()] } else { s[..s.find(|c| c == ',' || c == '}').unwrap()].trim_matches('"') }
}
fn bytes(s: &str) -> Vec<u8> {
    s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
}
fn is_finite(x: &[u8]) -> bool {
    let n = x.len();
    if n == 4 { (x[3] & 0x7f) != 0x7f || x[2] < 0x80 } else { (x[7] & 0x7f) != 0x7f || x[6] < 0xf0 }
}
/// calls the function on vector images; sin_cos_pi contributes a second observation
type Call<'a> = &'a dyn Fn(&str, &[u8], &[u8]) -> Vec<Vec<u8>>;
fn collect(n: usize, row: &Row, same: &[Row], r: &mut Rng, all: bool, call: Call, out: &mut Vec<Vec<u8>>) {
    // the neighbours: all the same arguments, the same exponent, the same base, ordinary
    // numbers only, the opposite
    let w = row.w;
    let finite: Vec<&Row> = same.iter().filter(|x| is_finite(&x.a) && (x.b.is_empty() || is_finite(&x.b))).collect();
    for shape in 0..6 {
        let j = r.below(n);
        let (mut a, mut b) = (vec![], vec![]);
        for i in 0..n {
            let e = &finite[r.below(finite.len())];
            let (mut x, mut y) = if i == j || shape == 0 { (row.a.clone(), row.b.clone()) } else { (e.a.clone(), e.b.clone()) };
            if shape == 1 {
                y = row.b.clone();
            }
            if shape == 2 {
                x = row.a.clone();
            }
            if shape >= 3 && i != j {
                // numbers of about the size of this one
                x = row.a.clone();
                y = row.b.clone();
                if shape >= 4 {
                    x[0] ^= r.below(256) as u8;
                }
                if shape == 3 || r.below(3) == 0 {
                    x[w - 1] ^= 0x80;
                }
                if shape == 5 && i % 2 == 0 && !y.is_empty() {
                    y[w - 1] ^= 0x80;
                }
            }
            b.extend(if y.is_empty() { &x } else { &y });
            a.extend(x);
        }
        for v in call(&row.f, &a, &b) {
            out.push(v[j * w..(j + 1) * w].to_vec());
        }
    }
    let lanes: Vec<usize> = if n <= 4 || all { (0..n).collect() } else { vec![0, n - 1, r.below(n)] };
    for j in lanes {
        let (mut a, mut b) = (vec![], vec![]);
        for i in 0..n {
            let e = if i == j { row } else { &same[r.below(same.len())] };
            a.extend(&e.a);
            b.extend(if e.b.is_empty() { &e.a } else { &e.b });
        }
        for v in call(&row.f, &a, &b) {
            out.push(v[j * row.w..(j + 1) * row.w].to_vec());
        }
    }
}
macro_rules! call {
    ($v:ident) => {
        &|f: &str, a: &[u8], b: &[u8]| {
            let x = from_bytes::<$v>(a);
            match f {
                "sin" => vec![to_bytes(&x.sin())],
                "cos" => vec![to_bytes(&x.cos())],
                "exp" => vec![to_bytes(&x.exp())],
                "ln" => vec![to_bytes(&x.ln())],
                "tanh" => vec![to_bytes(&x.tanh())],
                "powf" => vec![to_bytes(&x.powf(from_bytes::<$v>(b)))],
                "sin_pi" => vec![to_bytes(&x.sin_pi()), to_bytes(&x.sin_cos_pi().0)],
                "cos_pi" => vec![to_bytes(&x.cos_pi()), to_bytes(&x.sin_cos_pi().1)],
                _ => unreachable!(),
            }
        }
    };
}
fn main() {
    start();
    let text = std::fs::read_to_string(std::env::args().nth(5).unwrap()).unwrap();
    let rows: Vec<Row> = text
        .lines()
        .enumerate()
        .map(|(i, l)| Row {
            q: i + 1,
            f: field(l, "f").to_string(),
            w: field(l, "w").parse().unwrap(),
            a: bytes(field(l, "a")),
            b: bytes(field(l, "b")),
        })
        .collect();
    let mut r = rng("math", "", "");
    let all = lg().scale > 1;
    for row in &rows {
        let same: Vec<Row> = rows.iter().filter(|x| x.f == row.f && x.w == row.w).cloned().collect();
        for _ in 0..lg().scale {
            let res = catch(|| {
                let mut out = vec![];
                if row.w == 4 {
                    collect(2, row, &same, &mut r, all, call!(f32x2), &mut out);
                    collect(4, row, &same, &mut r, all, call!(f32x4), &mut out);
                    collect(8, row, &same, &mut r, all, call!(f32x8), &mut out);
                    collect(16, row, &same, &mut r, all, call!(f32x16), &mut out);
                } else {
                    collect(2, row, &same, &mut r, all, call!(f64x2), &mut out);
                    collect(4, row, &same, &mut r, all, call!(f64x4), &mut out);
                    collect(8, row, &same, &mut r, all, call!(f64x8), &mut out);
                }
                out
            });
            let (rs, first) = match &res {
                Some(o) => (o.clone(), Some(o[0].clone())),
                None => (vec![], None),
            };
            lg().ev("math", if row.w == 4 { "f32" } else { "f64" })
                .s("f", &row.f)
                .i("q", row.q as i64)
                .b("a", &row.a)
                .b("b", &row.b)
                .bs("rs", &rs)
                .r(first);
        }
    }
    stop();
}
