//! C10: values survive a round trip through text.

use mc_core::gen::{lengths, trees, words};
use mc_core::num::{ulps, ULP};
use mc_core::pda;
use mc_core::run::{self, Ctx, Spec};
use mc_core::rv::{read_ok, RV};
use mc_derives::*;
use mc_zoo::exact::Exact;
use mc_zoo::{parse, to_value, vals, Make};
use miniserde::json::{self, Array, Number, Object, Value};
use miniserde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};

fn cut(s: &str) -> String {
    s.chars().take(200).collect()
}
fn trip<T: Serialize + Deserialize + Exact>(x: &T) -> Option<String> {
    let text = json::to_string(x);
    match parse::<T>(&text) {
        Err(_) => Some(format!("{} does not parse as its own type", cut(&text))),
        Ok(b) if !x.same(&b) => Some(format!("{} parses as a different value ({})", cut(&text), cut(&json::to_string(&b)))),
        Ok(_) => None,
    }
}
fn ck<T: Serialize + Deserialize + Exact>(ctx: &mut Ctx, x: &T) {
    if let Some(m) = trip(x) {
        ctx.fail(m);
    }
    ctx.add("round trips", 1);
}

/// Text -> Value -> text -> Value -> text.
fn document(doc: &str) -> Result<bool, String> {
    let Ok(v) = parse::<Value>(doc) else { return Ok(false) };
    let t = json::to_string(&v);
    let Ok(w) = parse::<Value>(&t) else { return Err(format!("its own text {} is refused", cut(&t))) };
    if !v.same(&w) {
        return Err(format!("its own text {} denotes another value", cut(&t)));
    }
    let u = json::to_string(&w);
    let same = u == t
        || match (read_ok(&t), read_ok(&u)) {
            (Some(a), Some(b)) => near(&a, &b),
            _ => false,
        };
    if !same {
        return Err(format!("{} becomes {}", cut(&t), cut(&u)));
    }
    Ok(true)
}
/// The same text except for last-place differences in doubles.
fn near(a: &RV, b: &RV) -> bool {
    match (a, b) {
        (RV::Num(x), RV::Num(y)) => {
            x == y
                || (x.contains(['.', 'e']) && y.contains(['.', 'e'])
                    && match (x.parse::<f64>(), y.parse::<f64>()) {
                        (Ok(x), Ok(y)) => x.is_finite() && y.is_finite() && x.is_sign_negative() == y.is_sign_negative() && ulps(x, y) <= ULP,
                        _ => false,
                    })
        }
        (RV::Arr(x), RV::Arr(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| near(x, y)),
        (RV::Obj(x), RV::Obj(y)) => x.len() == y.len() && x.iter().zip(y).all(|((k, x), (l, y))| k == l && near(x, y)),
        _ => a == b,
    }
}
fn doc(ctx: &mut Ctx, fam: &'static str, d: &str) {
    if ctx.go(fam, d.as_bytes()) {
        match document(d) {
            Ok(true) => ctx.nontrivial(),
            Ok(false) => ctx.add("documents refused", 1),
            Err(m) => ctx.fail(m),
        }
    }
}

fn scalars(ctx: &mut Ctx) {
    macro_rules! each { ($($t:ident)*) => { $(
        if ctx.mine() {
            for n in $t::MIN..=$t::MAX {
                if ctx.go(concat!("all of ", stringify!($t)), n.to_string().as_bytes()) {
                    ck(ctx, &n);
                    if n as i64 % 64 == 3 { ctx.nontrivial(); }
                }
            }
        }
    )* } }
    each! { u8 i8 u16 i16 }
    for (k, n) in vals::u64s().into_iter().enumerate() {
        if k as u64 % ctx.workers == ctx.worker && ctx.go("unsigned integers", n.to_string().as_bytes()) {
            ck(ctx, &n);
            ck(ctx, &(n as usize));
            ck(ctx, &(n as u32));
            ck(ctx, &Some(n));
            ck(ctx, &Value::Number(Number::U64(n)));
            ck(ctx, &BTreeMap::from([(n, n)]));
            ck(ctx, &HashMap::from([(n as u32, [n, n])]));
            ctx.nontrivial();
        }
    }
    for (k, n) in vals::i64s().into_iter().enumerate() {
        if k as u64 % ctx.workers == ctx.worker && ctx.go("signed integers", n.to_string().as_bytes()) {
            ck(ctx, &n);
            ck(ctx, &(n as isize));
            ck(ctx, &(n as i32));
            ck(ctx, &Some(n));
            ck(ctx, &Number::I64(n));
            ck(ctx, &BTreeMap::from([(n, (n, n))]));
            ctx.nontrivial();
        }
    }
    let part = (ctx.worker, ctx.workers);
    let wide = !ctx.quick();
    let mut k = 0u64;
    vals::f64s(wide, part, &mut |x| {
        k += 1;
        if ctx.go("doubles", &x.to_bits().to_be_bytes()) {
            ck(ctx, &x);
            if k % 16 == 0 {
                ck(ctx, &vec![Some(x)]);
                ck(ctx, &Value::Array([Value::Number(Number::F64(x))].into_iter().collect()));
                ctx.nontrivial();
            }
        }
    });
    vals::f32s(ctx.pick(499, 17), part, &mut |x| {
        k += 1;
        if ctx.go("singles", &x.to_bits().to_be_bytes()) {
            ck(ctx, &x);
            if k % 64 == 0 {
                ck(ctx, &[x, x]);
                ctx.nontrivial();
            }
        }
    });
}

fn string(ctx: &mut Ctx, fam: &'static str, s: String, more: bool) {
    if !ctx.go(fam, s.as_bytes()) {
        return;
    }
    let kv = BTreeMap::from([(s.clone(), s.clone())]);
    ck(ctx, &kv);
    if more {
        ck(ctx, &s);
        ck(ctx, &vec![s.clone(), String::new(), format!("{}x", s)]);
        ck(ctx, &HashMap::from([(s.clone(), Some(s.clone())), (format!("{}\\", s), None)]));
        ck(ctx, &Value::Object([(s.clone(), Value::String(s.clone())), (format!("\"{}", s), Value::Null)].into_iter().collect()));
        ck(ctx, &(s.clone(), Box::new(s)));
    }
    ctx.nontrivial();
}
fn strings(ctx: &mut Ctx) {
    for block in 0..0x1100u32 {
        if ctx.mine() {
            for u in block * 256..block * 256 + 256 {
                if let Some(c) = char::from_u32(u) {
                    string(ctx, "every character", format!("{}\n{}", c, c), u < 0x900);
                    if u < 0x1000 && ctx.go("character keys", c.encode_utf8(&mut [0; 4]).as_bytes()) {
                        ck(ctx, &BTreeMap::from([(c, u)]));
                    }
                }
            }
        }
    }
    for len in 0..=ctx.pick(4, 5) {
        words(len, vals::CLASSES.len(), &mut |w| {
            if ctx.mine() {
                string(ctx, "words over the character classes", w.iter().map(|&i| vals::CLASSES[i]).collect(), len <= 2);
            }
        });
    }
    // Strings that look like escapes once written.
    let pieces = ["\\", "u", "0", "d83d", "\"", "n", "{", "é"];
    for len in 1..=ctx.pick(5, 6) {
        words(len, pieces.len(), &mut |w| {
            if ctx.mine() {
                string(ctx, "strings that look like escapes", w.iter().map(|&i| pieces[i]).collect(), false);
            }
        });
    }
    vals::offsets(ctx.pick(72, 300), &mut |s| {
        if ctx.mine() {
            string(ctx, "an escape at every offset", s, false);
        }
    });
    for n in lengths(ctx.pick(300, 3000), ctx.pick(1 << 17, 1 << 22)) {
        if ctx.mine() {
            for c in ['x', '\u{0}', '"', '😀'] {
                if ctx.go("long strings", format!("{} {:?}", n, c).as_bytes()) {
                    let s: String = std::iter::repeat(c).take(n).collect();
                    ck(ctx, &vec![s.clone(), s]);
                    ctx.nontrivial();
                }
            }
        }
    }
}

fn typed<T: Make + Serialize + Deserialize + Exact>(ctx: &mut Ctx, name: &'static str, budget: usize) {
    let mut c = Chooser::new(budget);
    while !c.done {
        let x = T::make(&mut c);
        if ctx.mine() && ctx.go("built-in types", format!("{}: {}", name, c.path()).as_bytes()) {
            ck(ctx, &x);
            let x = Some(Box::new((x, 1u8)));
            ck(ctx, &x);
            ck(ctx, &vec![x]);
            ctx.nontrivial();
        }
        c.next();
    }
}
macro_rules! all_typed { ($ctx:expr, $b:expr, $($t:ty),* $(,)?) => { $( typed::<$t>($ctx, stringify!($t), $b); )* } }

/// Derived values: what the definition writes must be the same before and after.
fn derived<T: Def + Make + Serialize + Deserialize>(ctx: &mut Ctx, name: &'static str) {
    let n = T::fields().map_or(1, |f| f.len());
    let mut c = Chooser::new(if n <= 12 { ctx.pick(2, 3) } else { ctx.pick(1, 2).min(if n > 100 { 1 } else { 2 }) });
    while !c.done {
        let x = T::make(&mut c);
        if ctx.mine() && ctx.go("derived types", format!("{}: {}", name, c.path()).as_bytes()) {
            let t = json::to_string(&x);
            match parse::<T>(&t) {
                Err(_) => ctx.fail(format!("{} does not parse as its own type", cut(&t))),
                Ok(y) => ctx.check(near(&x.written(), &y.written()), || format!("{} parses as a different value", cut(&t))),
            }
            let t = json::to_string(&vec![(&x, 0u8)]);
            match parse::<Vec<(T, u8)>>(&t) {
                Ok(y) if y.len() == 1 => ctx.check(near(&x.written(), &y[0].0.written()), || format!("{} parses as a different value", cut(&t))),
                _ => ctx.fail(format!("{} does not parse as its own type", cut(&t))),
            }
            ctx.nontrivial();
        }
        c.next();
    }
}
macro_rules! list { ($([$t:ty])*) => { vec![$((stringify!($t), derived::<$t> as fn(&mut Ctx, &'static str))),*] } }

fn sizes(ctx: &mut Ctx) {
    for n in lengths(ctx.pick(200, 2000), ctx.pick(1 << 14, 1 << 18)) {
        if !ctx.mine() || !ctx.go("wide containers", n.to_string().as_bytes()) {
            continue;
        }
        let v: Vec<u64> = (0..n as u64).map(|i| i.wrapping_mul(0x9e3779b97f4a7c15) >> (i % 64)).collect();
        ck(ctx, &v);
        ck(ctx, &v.iter().map(|x| vec![*x as i32; (*x % 3) as usize]).collect::<Vec<_>>());
        ck(ctx, &v.iter().map(|x| (x.to_string(), *x as f32)).collect::<BTreeMap<_, _>>());
        ck(ctx, &v.iter().map(|x| (*x, Some(*x as i64))).collect::<HashMap<_, _>>());
        ck(ctx, &Value::Array(v.iter().map(|x| Value::Number(Number::U64(*x))).collect()));
        ck(ctx, &Value::Object(v.iter().map(|x| (x.to_string(), Value::String(format!("{}\n", x)))).collect()));
        ctx.nontrivial();
    }
    if ctx.mine() {
        macro_rules! arrays { ($($n:literal)*) => { $(
            if ctx.go("fixed-size arrays", stringify!($n).as_bytes()) {
                ck(ctx, &std::array::from_fn::<u32, $n, _>(|i| i as u32 * 1000));
                ck(ctx, &std::array::from_fn::<_, $n, _>(|i| if i % 2 == 0 { Some(format!("{}\"", i)) } else { None }));
                ck(ctx, &[(); $n]);
                ctx.nontrivial();
            }
        )* } }
        arrays! { 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 63 64 65 100 127 128 129 255 256 257 1000 }
    }
}

fn documents(ctx: &mut Ctx) {
    // Every number literal over a small alphabet.
    let alpha: Vec<char> = "0159.e-".chars().collect();
    for len in 1..=ctx.pick(7, 8) {
        words(len, alpha.len(), &mut |w| {
            let s: String = w.iter().map(|&i| alpha[i]).collect();
            if pda::accepts(&s) && ctx.mine() {
                doc(ctx, "number literals", &s);
            }
        });
    }
    for d in 1..=ctx.pick(40, 400) {
        for e in -ctx.pick(345, 800)..=ctx.pick(345, 800) {
            if ctx.mine() {
                for (a, b) in [("1", "0"), ("9", "9"), ("1.2345678901", "7")] {
                    doc(ctx, "number literals with exponents", &format!("[{}{}e{}]", a, b.repeat(d - 1), e));
                }
            }
        }
    }
    // All trees, in three spellings.
    let sc = [RV::Null, RV::Bool(false), RV::Num("10e-1".into()), RV::Num("-0".into()), RV::Str("\\\u{0}".into())];
    let sc = if ctx.quick() { sc[1..].to_vec() } else { sc.to_vec() };
    for t in trees(ctx.pick(5, 6), &sc, &["k", "\t"]) {
        if !ctx.mine() {
            continue;
        }
        doc(ctx, "all trees", &t.text());
        let mut s = String::new();
        t.render(&mut s, &mut |i, o| o.push_str(["", " ", "\n\t", "\r"][i % 4]));
        doc(ctx, "all trees with whitespace", &s);
        let v = to_value(&t);
        ck(ctx, &v);
        if matches!(v, Value::Array(_)) {
            ck(ctx, &parse::<Array>(&t.text()).unwrap());
        }
        if matches!(v, Value::Object(_)) {
            ck(ctx, &parse::<Object>(&t.text()).unwrap());
        }
    }
    // Strings in every spelling.
    let pieces = ["a", "\\n", "\\/", "\\u0041", "\\ud83d\\ude00", "\\\\", "\\\"", "é", "\\u00e9", "\\u0000", "\u{7f}"];
    for len in 0..=ctx.pick(4, 5) {
        words(len, pieces.len(), &mut |w| {
            if ctx.mine() {
                let s: String = w.iter().map(|&i| pieces[i]).collect();
                doc(ctx, "string spellings", &format!("{{\"{}\":\"{}\"}}", s, s));
            }
        });
    }
    for n in lengths(ctx.pick(200, 1000), ctx.pick(3000, 3000)) {
        if ctx.mine() {
            for (o, c) in [("[", "]"), ("{\"\":", "}"), ("[{\"a\\u0041\":", "}]"), ("[1,[],", "]"), ("{\"a\":1e2,\"b\":", "}")] {
                doc(ctx, "deep documents", &format!("{}0.1e1{}", o.repeat(n), c.repeat(n)));
            }
        }
    }
}

fn body(ctx: &mut Ctx) {
    scalars(ctx);
    strings(ctx);
    documents(ctx);
    sizes(ctx);
    let b = ctx.pick(4, 6);
    all_typed!(ctx, b,
        (), bool, u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, f32, f64, String, Number, Value, Array, Object,
        Option<u8>, Option<bool>, Option<String>, Option<[u8; 2]>, Option<Vec<Option<u8>>>, Box<Option<f64>>, Vec<Option<String>>, Vec<Vec<u8>>, Vec<Vec<Vec<()>>>, Vec<(u8, Vec<u8>)>,
        [Vec<u8>; 2], [[u8; 2]; 2], [Option<f32>; 3], (Vec<u8>, BTreeMap<String, u8>), ((), ((), ())), (Box<u8>, Option<Box<String>>),
        BTreeMap<String, Vec<u8>>, BTreeMap<String, BTreeMap<String, Option<u8>>>, HashMap<String, Vec<String>>, HashMap<String, (u8, Object)>,
        Vec<Value>, Vec<BTreeMap<String, Value>>, Option<Array>, (Value, Object), Box<Vec<Box<Value>>>, Vec<HashMap<String, u8>>, (i64, (f64, (String, Option<bool>))),
    );
    let (a, b): (Vec<(&'static str, fn(&mut Ctx, &'static str))>, Vec<_>) = (structs!(list), enums!(list));
    for (n, f) in a.into_iter().chain(b) {
        f(ctx, n);
    }
}

fn main() {
    run::main(
        Spec {
            property: "C10",
            level: "exploration",
            rule: "bounded exhaustive enumeration of values (the scalar, string, size and construction spaces of C09, plus every derived definition) and of documents (all number literals over a small alphabet to a length, mantissa x exponent grids, all trees, all string spellings to a length, deep documents); each value is serialized and parsed as its own type and compared exactly (f64: 4 ULP, same sign); each accepted document goes text - value - text - value - text",
            assumptions: &["Option of a nullable type and non-finite floats are outside the property (both become null)"],
            stall: 60,
            mem_mb: 4096,
            bounds: "as listed under rule; floats: the listed bit patterns, singles with structured mantissas and every 499th (thorough: 17th) bit pattern",
        },
        body,
    )
}
