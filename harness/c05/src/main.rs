//! C05: built-in target types accept exactly their own values.

use mc_core::gen::{lengths, trees};
use mc_core::run::{self, Ctx, Spec};
use mc_core::rv::{self, RV};
use mc_zoo::{judge, parse, Model};
use miniserde::json::{Array, Number, Object, Value};
use miniserde::Deserialize;
use std::collections::{BTreeMap, HashMap};

type Judge = fn(Option<&RV>, &str) -> Result<bool, String>;

fn j<T: Model + Deserialize>(v: Option<&RV>, doc: &str) -> Result<bool, String> {
    let got = parse::<T>(doc);
    judge(v, &got).map(|_| got.is_ok())
}

macro_rules! zoo {
    ($($t:ty),* $(,)?) => { vec![$((stringify!($t), j::<$t> as Judge)),*] };
}

fn zoo() -> Vec<(&'static str, Judge)> {
    zoo![
        (), bool, String, u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, f32, f64, Number, Value, Array, Object,
        Option<()>, Option<bool>, Option<String>, Option<u8>, Option<i64>, Option<f64>, Option<Value>, Option<Vec<u8>>, Option<[u8; 2]>,
        Option<(u8, u8)>, Option<Option<u8>>, Option<Box<u8>>, Option<Array>, Option<Object>, Option<Number>,
        Option<BTreeMap<String, u8>>, Option<Option<Vec<Option<u8>>>>,
        Box<()>, Box<bool>, Box<String>, Box<u8>, Box<i8>, Box<f32>, Box<Value>, Box<Array>, Box<Object>, Box<Number>, Box<Vec<u8>>, Box<[u8; 2]>, Box<(u8, String)>,
        Box<Option<u8>>, Box<Option<Vec<u8>>>, Box<Box<u8>>, Box<Box<Vec<Box<u8>>>>, Box<BTreeMap<String, u8>>, Box<HashMap<String, Box<Value>>>,
        (u8, u8), (u8, String), (Option<u8>, Option<String>), (Value, Value), ((u8, u8), (u8, u8)), (Vec<u8>, [u8; 1]), ((), ()), (Box<u8>, Box<Value>),
        (Option<(u8, u8)>, Vec<(u8, u8)>), (String, (bool, (f64, ()))), (i8, u8),
        [(); 0], [(); 1], [(); 2], [u8; 0], [u8; 1], [u8; 2], [u8; 3], [u8; 4], [String; 1], [String; 2], [String; 3], [Option<u8>; 1], [Option<u8>; 2], [Option<String>; 3],
        [Value; 1], [Value; 2], [[u8; 1]; 1], [[u8; 0]; 2], [[Value; 2]; 2], [(u8, u8); 1], [(Value, Value); 2], [Vec<u8>; 2], [Box<u8>; 2], [f32; 2], [bool; 3], [Option<[Option<u8>; 1]>; 2],
        Vec<()>, Vec<bool>, Vec<String>, Vec<u8>, Vec<i8>, Vec<i64>, Vec<f64>, Vec<f32>, Vec<Value>, Vec<Option<u8>>, Vec<Option<Value>>, Vec<Vec<u8>>, Vec<Vec<Value>>, Vec<[u8; 1]>, Vec<[u8; 2]>, Vec<(u8, u8)>,
        Vec<(Value, Value)>, Vec<Box<Value>>, Vec<Array>, Vec<Object>, Vec<Number>, Vec<Vec<Vec<Option<u8>>>>, Vec<BTreeMap<String, u8>>,
        BTreeMap<String, u8>, BTreeMap<String, Value>, BTreeMap<String, Option<u8>>, BTreeMap<String, Vec<u8>>, BTreeMap<String, [u8; 1]>, BTreeMap<String, (u8, Value)>,
        BTreeMap<String, BTreeMap<String, Value>>, HashMap<String, Value>, HashMap<String, Option<Box<u8>>>,
    ]
}

fn ints() -> Vec<(&'static str, Judge)> {
    zoo![
        u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, f32, f64, Number, Option<u8>, Option<i16>, Box<i8>, Box<u64>
    ]
}

fn against(ctx: &mut Ctx, types: &[(&'static str, Judge)], v: Option<&RV>, doc: &str) {
    let mut any = false;
    for (name, j) in types {
        match j(v, doc) {
            Ok(a) => any |= a,
            Err(m) => ctx.fail(format!("{}: {}", name, m)),
        }
    }
    ctx.add("outcomes", types.len() as u64);
    if any {
        ctx.nontrivial();
    }
}

fn num(s: &str) -> RV {
    RV::Num(s.into())
}
fn st(s: &str) -> RV {
    RV::Str(s.into())
}

fn documents(ctx: &mut Ctx) {
    let z = zoo();
    let scalars = [
        RV::Null,
        RV::Bool(true),
        RV::Bool(false),
        num("0"),
        num("1"),
        num("-1"),
        num("255"),
        num("256"),
        num("-129"),
        num("1.0"),
        num("1e0"),
        num("1e400"),
        num("18446744073709551616"),
        st(""),
        st("1"),
        st("null"),
        st("\n"),
    ];
    let sets: Vec<(&'static str, usize, Vec<RV>, Vec<&str>)> = vec![
        ("scalars", ctx.pick(4, 4), scalars.to_vec(), vec!["a", "1"]),
        ("shapes", ctx.pick(6, 7), vec![num("1"), RV::Null], vec!["a"]),
        ("shapes-mixed", ctx.pick(5, 5), vec![num("1"), RV::Null, st("s"), num("-2"), num("0.5")], vec!["a", "b"]),
        ("shapes-deep", ctx.pick(7, 8), vec![num("2")], vec!["a"]),
    ];
    for (fam, n, sc, ks) in sets {
        for v in trees(n, &sc, &ks) {
            if !ctx.mine() {
                continue;
            }
            let doc = v.text();
            if ctx.go(fam, doc.as_bytes()) {
                against(ctx, &z, Some(&v), &doc);
                if v.nodes() <= 3 {
                    for w in [" ", "\n\t", "\r"] {
                        let mut s = String::new();
                        v.render(&mut s, &mut |_, o| o.push_str(w));
                        against(ctx, &z, Some(&v), &s);
                    }
                }
            }
        }
    }
    // Broken texts: every one-character edit of small documents.
    let alpha = [' ', ',', ']', '[', '{', '}', '"', ':', '0', '9', '-', '.', 'e', 'n', '\\', '\u{0}', 'é', '+', 't'];
    for v in trees(ctx.pick(3, 4), &[num("12"), RV::Null, RV::Bool(true), st("s"), num("-1.5")], &["a"]) {
        if !ctx.mine() {
            continue;
        }
        let doc = v.text();
        let cs: Vec<char> = doc.chars().collect();
        for i in 0..=cs.len() {
            let mut ts: Vec<String> = Vec::new();
            let pre: String = cs[..i].iter().collect();
            let post: String = cs[i..].iter().collect();
            ts.push(pre.clone());
            for c in alpha {
                ts.push(format!("{}{}{}", pre, c, post));
                if i < cs.len() {
                    ts.push(format!("{}{}{}", pre, c, cs[i + 1..].iter().collect::<String>()));
                }
            }
            if i < cs.len() {
                ts.push(format!("{}{}", pre, cs[i + 1..].iter().collect::<String>()));
            }
            for t in ts {
                if ctx.go("edited", t.as_bytes()) {
                    let v = rv::read(&t);
                    if let Some((_, f)) = &v {
                        if f.lone {
                            continue;
                        }
                    }
                    against(ctx, &z, v.as_ref().map(|x| &x.0), &t);
                }
            }
        }
    }
}

fn integers(ctx: &mut Ctx) {
    let z = ints();
    let span: i128 = ctx.pick(70_000, 2_000_000);
    for n in -span..=span {
        if ctx.mine() {
            let s = n.to_string();
            if ctx.go("integer", s.as_bytes()) {
                against(ctx, &z, Some(&num(&s)), &s);
            }
        }
    }
    let around: i128 = ctx.pick(300, 2000);
    let mut cs: Vec<i128> = Vec::new();
    for k in [7u32, 8, 15, 16, 23, 24, 25, 31, 32, 33, 40, 48, 52, 53, 54, 56, 62, 63, 64, 65] {
        cs.push(1i128 << k);
        cs.push(-(1i128 << k));
        // What wraps back into range when cut to a narrower width.
        for m in [2, 3, 5] {
            cs.push((1i128 << k) * m);
            cs.push(-(1i128 << k) * m);
        }
    }
    for c in cs {
        for d in -around..=around {
            if !ctx.mine() {
                continue;
            }
            let s = (c + d).to_string();
            if ctx.go("width", s.as_bytes()) {
                against(ctx, &z, Some(&num(&s)), &s);
                if d.abs() <= 3 {
                    for t in [".0", ".5", "e0", "E+0", "e1", "e-1", ".00", "e-0"] {
                        let s = format!("{}{}", s, t);
                        against(ctx, &z, Some(&num(&s)), &s);
                    }
                }
            }
        }
    }
    // Integral values written as floats are not integers.
    for n in -300i32..=300 {
        if !ctx.mine() {
            continue;
        }
        for t in [".0", "e0", "E0", "e+0", "e-0", ".000", ".0e0", "e1", "e2", ".5", ".999999999999999999999", "e-1"] {
            let s = format!("{}{}", n, t);
            if ctx.go("not-integer", s.as_bytes()) {
                against(ctx, &z, Some(&num(&s)), &s);
            }
        }
    }
    // The boundary as an element, an option, a tuple member.
    let nested: Vec<(&'static str, Judge)> = zoo![Vec<u8>, Vec<i8>, Vec<u64>, Vec<i64>, Vec<u16>, Vec<i32>, Vec<f32>, [u8; 2], [i64; 2], (i16, u32), (u64, i64), Vec<Option<u32>>, Option<(i8, Box<u8>)>, (usize, isize)];
    let bs: Vec<i128> = [7u32, 8, 15, 16, 31, 32, 63, 64]
        .iter()
        .flat_map(|k| {
            let p = 1i128 << k;
            [p - 1, p, p + 1, -p - 1, -p, -p + 1]
        })
        .chain([0, 1, -1])
        .collect();
    for a in &bs {
        for b in &bs {
            if !ctx.mine() {
                continue;
            }
            let v = RV::Arr(vec![num(&a.to_string()), num(&b.to_string())]);
            let s = v.text();
            if ctx.go("pairs", s.as_bytes()) {
                against(ctx, &nested, Some(&v), &s);
            }
        }
    }
}

fn floats(ctx: &mut Ctx) {
    let z: Vec<(&'static str, Judge)> = zoo![f32, f64, Option<f32>];
    let zv: Vec<(&'static str, Judge)> = zoo![Vec<f32>, [f32; 1], Vec<f64>, Box<[f64; 1]>];
    let man: Vec<u32> = {
        let mut v: Vec<u32> = (0..ctx.pick(24u32, 300)).collect();
        for k in 0..23 {
            v.push(1 << k);
            v.push((1 << 23) - (1 << k));
            v.push(0x555555 >> k);
            v.push(0x7fffff >> k);
        }
        v.sort_unstable();
        v.dedup();
        v
    };
    for e in 0..=254u32 {
        for &m in &man {
            if !ctx.mine() {
                continue;
            }
            let bits = (e << 23) | m;
            let x = f32::from_bits(bits);
            let up = f32::from_bits(bits + 1);
            // The single itself, the halfway point to the next, and its two neighbouring doubles.
            let half = if up.is_finite() { (x as f64 + up as f64) / 2.0 } else { 3.402823567797337e38 };
            let mut ds = vec![x as f64, half];
            if half > 0.0 {
                ds.push(f64::from_bits(half.to_bits() - 1));
                ds.push(f64::from_bits(half.to_bits() + 1));
                ds.push(f64::from_bits(half.to_bits() + 40));
                ds.push(f64::from_bits(half.to_bits() - 40));
            }
            for d in ds {
                for s in [format!("{:e}", d), format!("-{:.20e}", d)] {
                    if ctx.go("single", s.as_bytes()) {
                        against(ctx, &z, Some(&num(&s)), &s);
                        if m < 3 {
                            against(ctx, &zv, Some(&RV::Arr(vec![num(&s)])), &format!("[ {} ]", s));
                        }
                    }
                }
            }
        }
    }
    // Integers into floats: 2^24 and 2^53 neighbourhoods.
    for k in 20..64u32 {
        for d in -40i128..=40 {
            if !ctx.mine() {
                continue;
            }
            for n in [(1i128 << k) + d, -((1i128 << k) + d), 3 * (1i128 << (k - 2)) + d] {
                let s = n.to_string();
                if ctx.go("float-of-integer", s.as_bytes()) {
                    against(ctx, &z, Some(&num(&s)), &s);
                }
            }
        }
    }
}

fn arrays_of<T: Model + Deserialize + 'static>() -> Vec<(&'static str, Judge)>
{
    macro_rules! n { ($($n:literal)*) => { vec![$((stringify!($n), j::<[T; $n]> as Judge)),*] } }
    n!(0 1 2 3 4 5 6 7 8 9 10 12 15 16 17 20 24 31 32 33 40 48 63 64 65 100 127 128 129 200 255 256 257 500 512 1000 1024)
}

fn lengths_of(ctx: &mut Ctx) {
    let sets: Vec<(&'static str, Vec<(&'static str, Judge)>, fn(usize) -> RV)> = vec![
        ("len-u8", arrays_of::<u8>(), |i| num(&(i % 256).to_string())),
        ("len-String", arrays_of::<String>(), |i| st(&format!("s{}", i))),
        ("len-Option", arrays_of::<Option<u32>>(), |i| if i % 3 == 0 { RV::Null } else { num(&i.to_string()) }),
        ("len-Vec", arrays_of::<Vec<u16>>(), |i| RV::Arr((0..i % 4).map(|k| num(&(i + k).to_string())).collect())),
        ("len-array", arrays_of::<[u16; 2]>(), |i| RV::Arr(vec![num(&i.to_string()), num("7")])),
        ("len-unit", arrays_of::<()>(), |_| RV::Null),
        ("len-Box", arrays_of::<Box<Value>>(), |i| num(&i.to_string())),
    ];
    let vecs: Vec<Vec<(&'static str, Judge)>> = vec![
        zoo![Vec<u8>, Vec<u64>, Vec<f64>, Vec<i32>, Array, Value, Vec<Value>, Box<Vec<u8>>, Option<Vec<u8>>, Vec<Box<Option<u8>>>, (u8, u8), Vec<String>],
        zoo![Vec<String>, Array, Box<Vec<Box<String>>>, (String, String)],
        zoo![Vec<Option<u32>>, Option<Vec<Option<u64>>>, (Option<u8>, Option<u8>), Vec<u32>],
        zoo![Vec<Vec<u16>>, Vec<Array>, Box<Vec<Box<Vec<u16>>>>],
        zoo![Vec<[u16; 2]>, Vec<(u16, u8)>, Vec<Vec<u16>>, Vec<[u16; 3]>],
        zoo![Vec<()>, Vec<Option<()>>, Vec<Option<u8>>],
        zoo![Vec<Box<Value>>, Vec<Option<Box<Value>>>, Vec<u32>],
    ];
    for n in lengths(ctx.pick(300, 1100), ctx.pick(1 << 14, 1 << 18)) {
        for (si, (fam, types, mk)) in sets.iter().enumerate() {
            if !ctx.mine() {
                continue;
            }
            let v = RV::Arr((0..n).map(mk).collect());
            let doc = v.text();
            if ctx.go(fam, format!("n={}", n).as_bytes()) {
                against(ctx, types, Some(&v), &doc);
                against(ctx, &vecs[si], Some(&v), &doc);
            }
            // One bad element at each position (all for short, edges for long).
            if let RV::Arr(a) = &v {
                for i in 0..n {
                    if n > 40 && i != 0 && i != 1 && i != n / 2 && i + 2 < n {
                        continue;
                    }
                    let mut b = a.clone();
                    b[i] = RV::Obj(vec![]);
                    let v = RV::Arr(b);
                    if ctx.go("bad-element", format!("{} n={} i={}", fam, n, i).as_bytes()) {
                        let doc = v.text();
                        if n < 300 {
                            against(ctx, types, Some(&v), &doc);
                        }
                        against(ctx, &vecs[si], Some(&v), &doc);
                    }
                }
            }
        }
    }
}

fn strings(ctx: &mut Ctx) {
    let z: Vec<(&'static str, Judge)> = zoo![String, Option<String>, Box<String>, Value, bool, u8, (), f64, Vec<u8>, Number];
    // Strings that look like other kinds stay strings and are refused by the other types.
    for s in [
        "", " ", "null", "true", "false", "0", "1", "-1", "1.5", "1e3", "[]", "{}", "[1]", "{\"a\":1}", "\"x\"", "inf", "NaN", "Some", "None", "()", "\u{0}", "é", "😀",
    ] {
        let v = st(s);
        let doc = v.text();
        if ctx.mine() && ctx.go("string-like", doc.as_bytes()) {
            against(ctx, &z, Some(&v), &doc);
            against(ctx, &zoo(), Some(&v), &doc);
        }
    }
    for n in lengths(ctx.pick(600, 3000), ctx.pick(1 << 16, 1 << 20)) {
        if ctx.mine() && ctx.go("string-length", format!("n={}", n).as_bytes()) {
            for f in ["a", "é", "\"", "\n", "0"] {
                let v = st(&f.repeat(n));
                against(ctx, &z, Some(&v), &v.text());
            }
        }
    }
}

fn body(ctx: &mut Ctx) {
    documents(ctx);
    integers(ctx);
    floats(ctx);
    lengths_of(ctx);
    strings(ctx);
}

fn main() {
    run::main(
        Spec {
            property: "C05",
            level: "exploration",
            rule: "case = a document, parsed into every type of the zoo (about 130 types) and each outcome compared with the reference meaning of that type; non-trivial = at least one type accepts it",
            assumptions: &["-0 for unsigned integers and the 4-ULP band around the largest double may go either way"],
            stall: 60,
            mem_mb: 6144,
            bounds: "all trees of <=4 nodes over 17 scalars, <=6 (7) over 2, <=5 over 5, <=7 (8) over 1, and every one-character edit of trees of <=3 (4) nodes; all integers to +-70,000 (2,000,000) and +-300 (2000) around every width; arrays of 37 lengths x document lengths to 300 (1100) and 2^14 (2^18); structured singles and halfway points for every exponent",
        },
        body,
    );
}
