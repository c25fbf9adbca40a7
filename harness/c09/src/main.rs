//! C09: serialized text is valid JSON that denotes the value.

use mc_core::gen::{lengths, trees, words};
use mc_core::run::{self, Ctx, Spec};
use mc_core::rv::{read_ok, RV};
use mc_zoo::says::{float_says, Item, Says};
use mc_zoo::vals;
use mc_zoo::{to_value, Chooser, Make};
use miniserde::json::{self, Array, Number, Object, Value};
use miniserde::Serialize;
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};

/// The text is one JSON value without anything around it, with nothing raw that must be escaped,
/// and denotes the value.
fn wrong<T: ?Sized + Serialize + Says>(x: &T) -> Option<String> {
    let text = json::to_string(x);
    match read_ok(&text) {
        None => Some(format!("not a JSON text: {}", cut(&text))),
        Some(_) if text.starts_with([' ', '\n', '\t', '\r']) || text.ends_with([' ', '\n', '\t', '\r']) => Some("whitespace around the text".into()),
        Some(_) if text.bytes().any(|b| b < 0x20) => Some("a raw control character".into()),
        Some(got) if !x.says(&got) => Some(format!("denotes another value: {}", cut(&text))),
        Some(_) => None,
    }
}
fn cut(s: &str) -> String {
    s.chars().take(200).collect()
}
fn ck<T: ?Sized + Serialize + Says>(ctx: &mut Ctx, x: &T) {
    if let Some(m) = wrong(x) {
        ctx.fail(m);
    }
    ctx.add("texts", 1);
}

/// A string by itself and in every place a string can take.
fn string(ctx: &mut Ctx, fam: &'static str, s: &str, everywhere: bool) {
    if !ctx.go(fam, s.as_bytes()) {
        return;
    }
    ck(ctx, s);
    ck(ctx, &BTreeMap::from([(s.to_string(), 1u8)]));
    if everywhere {
        let o = s.to_string();
        ck(ctx, &o);
        ck(ctx, &vec![o.clone(), String::new(), o.clone()]);
        ck(ctx, &Cow::Borrowed(s));
        ck(ctx, &Some(Box::new(o.clone())));
        ck(ctx, &(s, [s, s]));
        ck(ctx, &HashMap::from([(o.clone(), o.clone())]));
        ck(ctx, &Value::String(o.clone()));
        ck(ctx, &Value::Object([(o.clone(), Value::String(o.clone())), (format!("{}2", o), Value::Null)].into_iter().collect()));
        for owned in [false, true] {
            ck(ctx, &Item::Str(o.clone(), owned));
            ck(ctx, &Item::Map(vec![(o.clone(), owned, Item::Str(o.clone(), !owned)), (o.clone(), !owned, Item::Map(vec![(o.clone(), owned, Item::Null)]))]));
        }
        // Nothing of one text leaks into the next.
        let t = json::to_string(s);
        let _ = json::to_string(&format!("\u{1}{}\"", s));
        ctx.check(json::to_string(s) == t, || "serializing again gives another text".into());
    }
    ctx.nontrivial();
}

fn strings(ctx: &mut Ctx) {
    for block in 0..0x1100u32 {
        if !ctx.mine() {
            continue;
        }
        for u in block * 256..block * 256 + 256 {
            if let Some(c) = char::from_u32(u) {
                string(ctx, "every character", c.encode_utf8(&mut [0; 4]), u < 0x300);
                if u < 0x3000 || u % 256 == 255 || u % 256 == 0 {
                    string(ctx, "every character between others", &format!("a{}b", c), false);
                    string(ctx, "every character next to escapes", &format!("\"{}\n", c), false);
                }
                if c.is_ascii() || u == 0xe9 {
                    ctx.go("character keys", c.encode_utf8(&mut [0; 4]).as_bytes());
                    ck(ctx, &BTreeMap::from([(c, c as u32)]));
                }
            }
        }
    }
    for a in 0..128u8 {
        if ctx.mine() {
            for b in 0..128u8 {
                string(ctx, "all ASCII pairs", &format!("{}{}", a as char, b as char), false);
            }
        }
    }
    let n = ctx.pick(4, 5);
    for len in 0..=n {
        words(len, vals::CLASSES.len(), &mut |w| {
            if ctx.mine() {
                let s: String = w.iter().map(|&i| vals::CLASSES[i]).collect();
                string(ctx, "words over the character classes", &s, len <= 2);
            }
        });
    }
    // Escape or not, nothing more: long words over two symbols.
    for len in 5..=ctx.pick(12, 16) {
        words(len, 2, &mut |w| {
            if ctx.mine() {
                let s: String = w.iter().map(|&i| ['x', '\u{2}'][i]).collect();
                string(ctx, "long words of plain and escaped characters", &s, false);
            }
        });
    }
    vals::offsets(ctx.pick(72, 300), &mut |s| {
        if ctx.mine() {
            string(ctx, "an escape at every offset", &s, false);
        }
    });
    for n in lengths(ctx.pick(300, 3000), ctx.pick(1 << 17, 1 << 22)) {
        if !ctx.mine() {
            continue;
        }
        for c in ['x', '\u{0}', '"', '😀'] {
            if ctx.go("long strings", format!("{} {:?}", n, c).as_bytes()) {
                let s: String = std::iter::repeat(c).take(n).collect();
                ck(ctx, &*s);
                ck(ctx, &BTreeMap::from([(s.clone(), s)]));
                ctx.nontrivial();
            }
        }
    }
}

fn ints(ctx: &mut Ctx) {
    macro_rules! each { ($($t:ident)*) => { $(
        if ctx.mine() {
            for n in $t::MIN..=$t::MAX {
                if ctx.go(concat!("all of ", stringify!($t)), n.to_string().as_bytes()) {
                    ck(ctx, &n);
                    if n as i64 % 64 == 3 { ctx.nontrivial(); }
                }
            }
        }
    )* } }
    each! { u8 i8 u16 i16 }
    for (k, n) in vals::u64s().into_iter().enumerate() {
        if k as u64 / 64 % ctx.workers != ctx.worker {
            continue;
        }
        if ctx.go("unsigned integers", n.to_string().as_bytes()) {
            ck(ctx, &n);
            ck(ctx, &(n as usize));
            ck(ctx, &(n as u32));
            ck(ctx, &[(n, n)]);
            ck(ctx, &Value::Number(Number::U64(n)));
            ck(ctx, &Item::U64(n));
            ck(ctx, &BTreeMap::from([(n, n)]));
            ctx.nontrivial();
        }
    }
    for (k, n) in vals::i64s().into_iter().enumerate() {
        if k as u64 / 64 % ctx.workers != ctx.worker {
            continue;
        }
        if ctx.go("signed integers", n.to_string().as_bytes()) {
            ck(ctx, &n);
            ck(ctx, &(n as isize));
            ck(ctx, &(n as i32));
            ck(ctx, &[(n, n)]);
            ck(ctx, &Value::Number(Number::I64(n)));
            ck(ctx, &Item::I64(n));
            ck(ctx, &BTreeMap::from([(n, n)]));
            ctx.nontrivial();
        }
    }
}

fn float_text(ctx: &mut Ctx, text: &str, x: f64) {
    // Cheap path of wrong().
    let ok = match read_ok(text) {
        Some(v) => float_says(x, &v) && text.as_bytes()[0] != b' ' && !text.ends_with([' ', '\n']),
        None => false,
    };
    if !ok {
        ctx.fail(format!("{:e} written as {}", x, text));
    }
    ctx.add("texts", 1);
}

fn floats(ctx: &mut Ctx) {
    let part = (ctx.worker, ctx.workers);
    let mut n = 0u64;
    let wide = !ctx.quick();
    vals::f64s(wide, part, &mut |x| {
        n += 1;
        if ctx.go("doubles", &x.to_bits().to_be_bytes()) {
            float_text(ctx, &json::to_string(&x), x);
            if n % 64 == 0 {
                ck(ctx, &[Some(x)]);
                ck(ctx, &Value::Number(Number::F64(x)));
                ck(ctx, &BTreeMap::from([("k", (x, Item::F64(x)))]));
                ctx.nontrivial();
            }
        }
    });
    vals::f32s(ctx.pick(401, 13), part, &mut |x| {
        n += 1;
        if ctx.go("singles", &x.to_bits().to_be_bytes()) {
            float_text(ctx, &json::to_string(&x), x as f64);
            if n % 256 == 0 {
                ctx.nontrivial();
            }
        }
    });
    // Everything that is not finite.
    if ctx.mine() {
        let mut bits: Vec<u64> = vec![f64::INFINITY.to_bits(), f64::NEG_INFINITY.to_bits()];
        for k in 0..52 {
            bits.push(f64::INFINITY.to_bits() | 1 << k);
            bits.push(f64::NEG_INFINITY.to_bits() | 1 << k);
            bits.push(f64::INFINITY.to_bits() | ((1 << (k + 1)) - 1));
        }
        for b in bits {
            let x = f64::from_bits(b);
            if ctx.go("not finite", &b.to_be_bytes()) {
                ck(ctx, &x);
                ck(ctx, &(x as f32));
                ck(ctx, &vec![Some(x), None, Some(1.0)]);
                ck(ctx, &Value::Number(Number::F64(x)));
                ck(ctx, &BTreeMap::from([("k", x)]));
                ck(ctx, &Item::Seq(vec![Item::F64(x), Item::F64(x)]));
                ctx.nontrivial();
            }
        }
    }
}

fn structures(ctx: &mut Ctx) {
    let scalars = [RV::Null, RV::Bool(true), RV::Num("1.5".into()), RV::Num("-1".into()), RV::Str("\"".into())];
    let n = ctx.pick(5, 6);
    let small: Vec<RV> = if ctx.quick() { scalars[..4].to_vec() } else { scalars.to_vec() };
    for t in trees(n, &small, &["k", "\n"]) {
        if !ctx.mine() {
            continue;
        }
        if ctx.go("all trees", t.text().as_bytes()) {
            ck(ctx, &to_value(&t));
            ck(ctx, &Item::of(&t, false));
            ck(ctx, &Item::of(&t, true));
            ctx.nontrivial();
        }
    }
    // Deeper trees over few scalars: closing and comma placement.
    for t in trees(ctx.pick(7, 8), &[RV::Null], &["k"]) {
        if ctx.mine() && ctx.go("all trees over one scalar", t.text().as_bytes()) {
            ck(ctx, &to_value(&t));
            ck(ctx, &Item::of(&t, false));
            ctx.nontrivial();
        }
    }
    for n in lengths(ctx.pick(200, 2000), ctx.pick(1 << 14, 1 << 18)) {
        if !ctx.mine() {
            continue;
        }
        if ctx.go("wide containers", n.to_string().as_bytes()) {
            let v: Vec<u64> = (0..n as u64).map(|i| i.wrapping_mul(0x9e3779b97f4a7c15) >> (i % 64)).collect();
            ck(ctx, &v);
            ck(ctx, &v.iter().map(|x| vec![*x; (*x % 3) as usize]).collect::<Vec<_>>());
            ck(ctx, &v.iter().map(|x| (x.to_string(), *x)).collect::<BTreeMap<_, _>>());
            ck(ctx, &v.iter().map(|x| (*x, Some(*x as i64))).collect::<BTreeMap<_, _>>());
            if n <= 4096 {
                ck(ctx, &v.iter().map(|x| (*x, ())).collect::<HashMap<_, _>>());
            }
            ck(ctx, &Value::Array(v.iter().map(|x| Value::Number(Number::U64(*x))).collect()));
            ck(ctx, &Value::Object(v.iter().map(|x| (x.to_string(), Value::Number(Number::I64(*x as i64)))).collect()));
            ctx.nontrivial();
        }
        if n <= 3000 && ctx.go("deep containers", n.to_string().as_bytes()) {
            for w in 0..4usize {
                let mut it = Item::Null;
                let mut v = Value::Null;
                for i in 0..n {
                    let obj = (w >> (i % 2)) & 1 == 1;
                    it = if obj { Item::Map(vec![("k".into(), i % 3 == 0, it), ("l".into(), false, Item::U64(1))]) } else { Item::Seq(vec![it, Item::Bool(true)]) };
                    v = if obj { Value::Object([("k".to_string(), v)].into_iter().collect()) } else { Value::Array([v].into_iter().collect()) };
                }
                ck(ctx, &it);
                ck(ctx, &v);
            }
            ctx.nontrivial();
        }
    }
    // Fixed-size arrays.
    if ctx.mine() {
        macro_rules! arrays { ($($n:literal)*) => { $(
            if ctx.go("fixed-size arrays", stringify!($n).as_bytes()) {
                ck(ctx, &std::array::from_fn::<u32, $n, _>(|i| i as u32 * 1000));
                ck(ctx, &std::array::from_fn::<_, $n, _>(|i| if i % 2 == 0 { Some("x\"") } else { None }));
                ck(ctx, &[(); $n]);
                ctx.nontrivial();
            }
        )* } }
        arrays! { 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 63 64 65 100 127 128 129 255 256 257 1000 }
    }
}

fn typed<T: Make + Serialize + Says>(ctx: &mut Ctx, name: &'static str, budget: usize) {
    let mut c = Chooser::new(budget);
    while !c.done {
        let mine = ctx.mine();
        let x = T::make(&mut c);
        if mine && ctx.go("built-in types", format!("{}: {}", name, c.path()).as_bytes()) {
            ck(ctx, &x);
            ck(ctx, &&x);
            ck(ctx, &Some(&x));
            ck(ctx, &[&x, &x][..]);
            ctx.check(json::to_string(&x) == json::to_string(&Box::new(&x)), || "serializing again gives another text".into());
            ctx.nontrivial();
        }
        c.next();
    }
}
macro_rules! all_typed { ($ctx:expr, $b:expr, $($t:ty),* $(,)?) => { $( typed::<$t>($ctx, stringify!($t), $b); )* } }

fn body(ctx: &mut Ctx) {
    strings(ctx);
    ints(ctx);
    floats(ctx);
    structures(ctx);
    let b = ctx.pick(4, 6);
    all_typed!(ctx, b,
        (), bool, u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, f32, f64, String, Number, Value, Array, Object,
        Option<()>, Option<u8>, Option<Option<u8>>, Box<Option<f64>>, Vec<Option<String>>, Vec<Vec<u8>>, Vec<Vec<Vec<()>>>, Vec<(u8, Vec<u8>)>,
        [Vec<u8>; 2], [[u8; 2]; 2], [Option<f32>; 3], (Vec<u8>, BTreeMap<String, u8>), ((), ((), ())), (Box<u8>, Option<Box<String>>),
        BTreeMap<String, Vec<u8>>, BTreeMap<String, BTreeMap<String, Option<u8>>>, HashMap<String, Vec<String>>, HashMap<String, (u8, Object)>,
        Vec<Value>, Vec<BTreeMap<String, Value>>, Option<Array>, (Value, Object), Box<Vec<Box<Value>>>, Vec<HashMap<String, u8>>, (i64, (f64, (String, Option<bool>))),
    );
}

fn main() {
    run::main(
        Spec {
            property: "C09",
            level: "exploration",
            rule: "bounded exhaustive enumeration of values: every character alone and in keys, all ASCII pairs, all words over the character classes to a length, escapes at every offset; all 8/16-bit integers, wider ones around every power of two and ten; doubles with structured mantissas at every exponent and both ends of the range, singles with structured mantissas and every 401st (thorough: 13th) bit pattern; all trees to a node count; size lists; values of 45 types. Each text is read by the reference reader and must denote the value.",
            assumptions: &[
                "the reference reader (checked against the pushdown recogniser in C01) and Rust's own float parser are conforming",
            ],
            stall: 60,
            mem_mb: 4096,
            bounds: "strings: length-bounded words and listed lengths; floats: the listed bit patterns; structures: node bound and listed sizes",
        },
        body,
    )
}
