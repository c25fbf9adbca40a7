//! C20: any input into any type returns, with bounded work and memory.

use mc_core::alloc::{mark, peak, reset_peak, Checked};
use mc_core::gen::{lengths, words};
use mc_core::run::{self, Ctx, Spec};
use miniserde::de::{Map, Seq, Visitor};
use miniserde::json::{from_str, to_string, Array, Number, Object, Value};
use miniserde::{make_place, Deserialize, Result, Serialize};
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;
use std::net::IpAddr;

#[global_allocator]
static A: Checked = Checked;

// ---- targets

#[derive(Serialize, Deserialize, Debug)]
struct St {
    a: u8,
    #[serde(rename = "b\n")]
    b: Option<Vec<St>>,
    r#type: Option<E>,
}
#[derive(Serialize, Deserialize, Debug)]
enum E {
    A,
    #[serde(rename = "1")]
    B,
    #[serde(rename = "")]
    C,
}
#[derive(Serialize, Deserialize, Debug)]
struct Empty {}
#[derive(Serialize, Deserialize, Debug)]
struct Rec {
    #[serde(rename = "k")]
    k: Option<Box<Rec>>,
    v: Option<Value>,
}
#[derive(Serialize, Deserialize, Debug)]
struct Gen<T> {
    t: T,
    u: (T, Option<T>),
}

thread_local!(static CALLS: Cell<u64> = const { Cell::new(0) });
fn call() {
    CALLS.with(|c| c.set(c.get() + 1))
}
make_place!(Place);
/// Counts callbacks and keeps nothing.
#[derive(Debug)]
struct Count;
impl Deserialize for Count {
    fn begin(out: &mut Option<Self>) -> &mut dyn Visitor {
        Place::new(out)
    }
}
struct CB<'a>(&'a mut Option<Count>, Option<Count>);
impl Visitor for Place<Count> {
    fn null(&mut self) -> Result<()> {
        call();
        self.out = Some(Count);
        Ok(())
    }
    fn boolean(&mut self, _: bool) -> Result<()> {
        self.null()
    }
    fn string(&mut self, _: &str) -> Result<()> {
        self.null()
    }
    fn negative(&mut self, _: i64) -> Result<()> {
        self.null()
    }
    fn nonnegative(&mut self, _: u64) -> Result<()> {
        self.null()
    }
    fn float(&mut self, _: f64) -> Result<()> {
        self.null()
    }
    fn seq(&mut self) -> Result<Box<dyn Seq + '_>> {
        call();
        Ok(Box::new(CB(&mut self.out, None)))
    }
    fn map(&mut self) -> Result<Box<dyn Map + '_>> {
        call();
        Ok(Box::new(CB(&mut self.out, None)))
    }
}
impl Seq for CB<'_> {
    fn element(&mut self) -> Result<&mut dyn Visitor> {
        call();
        self.1 = None;
        Ok(Deserialize::begin(&mut self.1))
    }
    fn finish(&mut self) -> Result<()> {
        call();
        *self.0 = Some(Count);
        Ok(())
    }
}
impl Map for CB<'_> {
    fn key(&mut self, _: &str) -> Result<&mut dyn Visitor> {
        call();
        self.1 = None;
        Ok(Deserialize::begin(&mut self.1))
    }
    fn finish(&mut self) -> Result<()> {
        call();
        *self.0 = Some(Count);
        Ok(())
    }
}

#[derive(Clone, Copy)]
struct Ty {
    name: &'static str,
    size: usize,
    /// Parses, looks at the result in every way, and drops it. The flag asks for Debug.
    go: fn(&str, bool) -> bool,
    parse: fn(&str) -> bool,
}
fn go<T: Deserialize + Serialize + Debug>(s: &str, debug: bool) -> bool {
    match from_str::<T>(s) {
        Ok(v) => {
            std::hint::black_box(to_string(&v));
            if debug {
                std::hint::black_box(format!("{:?}{:#?}", v, v));
            }
            true
        }
        Err(_) => false,
    }
}
fn count(s: &str, _: bool) -> bool {
    CALLS.with(|c| c.set(0));
    let r = from_str::<Count>(s).is_ok();
    let n = CALLS.with(|c| c.get());
    // A token leads to two calls at most: its own and that for the place it goes to.
    assert!(n <= 2 * s.len() as u64 + 2, "{} callbacks for {} bytes", n, s.len());
    r
}
macro_rules! ty { ($($t:ty),* $(,)?) => { vec![$(Ty { name: stringify!($t), size: std::mem::size_of::<$t>(), go: go::<$t>, parse: |s| from_str::<$t>(s).is_ok() }),*] } }

fn types() -> Vec<Ty> {
    let mut v = ty![
        Value, St, Rec, Vec<Value>, Array, Object, Number, f64, u64, i8, String, Empty, E,
        (), bool, u8, u16, u32, usize, i16, i32, i64, isize, f32,
        Option<u8>, Option<String>, Option<Value>, Option<Option<bool>>, Box<u8>, Box<Value>, Box<Option<Box<String>>>,
        Vec<()>, Vec<u8>, Vec<i64>, Vec<f64>, Vec<String>, Vec<Option<u8>>, Vec<Vec<u8>>, Vec<Vec<Vec<Value>>>, Vec<Empty>, Vec<St>, Vec<E>,
        (u8, u8), (Value, Value), (String, (f32, ())), ((u8, u8), Vec<(u8, u8)>),
        [u8; 0], [u8; 1], [u8; 3], [Value; 2], [String; 2], [[u8; 2]; 2], [(); 3], [Box<Value>; 1], [Option<[u8; 1]>; 2], [u64; 40],
        BTreeMap<String, u8>, BTreeMap<String, Value>, BTreeMap<u8, u8>, BTreeMap<i64, Value>, BTreeMap<char, bool>, BTreeMap<bool, ()>, BTreeMap<String, BTreeMap<String, u8>>, BTreeMap<IpAddr, u8>,
        HashMap<String, u8>, HashMap<String, Value>, HashMap<u64, Vec<u8>>, HashMap<i8, HashMap<char, Value>>,
        Gen<u8>, Gen<String>, Gen<Gen<Value>>, Box<Gen<Vec<f32>>>, Option<Box<Rec>>, BTreeMap<String, St>, [St; 1], (St, E), Vec<Gen<E>>,
    ];
    v.insert(1, Ty { name: "callbacks", size: 0, go: count, parse: |s| count(s, false) });
    v
}

fn case(ctx: &mut Ctx, fam: &'static str, ts: &[Ty], s: &str) {
    if ctx.go(fam, s.as_bytes()) {
        ctx.add("calls", ts.len() as u64);
        let before = mark();
        let mut any = false;
        for t in ts {
            any |= (t.go)(s, true);
        }
        // Everything is dropped again.
        let after = mark();
        if before != after {
            ctx.fail(format!("{} blocks, {} bytes are kept", after.blocks - before.blocks, after.bytes - before.bytes));
        }
        if any {
            ctx.nontrivial();
        }
    }
}

/// Memory at scale: the peak stays within a constant times the length.
fn scale(ctx: &mut Ctx, fam: &'static str, ts: &[Ty], what: &str, s: &str) {
    for t in ts {
        if !ctx.go(fam, format!("{} {} bytes: {}", t.name, s.len(), what).as_bytes()) {
            continue;
        }
        ctx.add("calls", 1);
        let before = reset_peak();
        let ok = (t.parse)(s);
        let used = peak() - before;
        let after = mark().bytes;
        let bound = s.len() as i64 * (512 + 4 * t.size as i64) + (1 << 16);
        ctx.check(used <= bound, || format!("{} bytes in use while parsing {} bytes", used, s.len()));
        ctx.check(before == after, || format!("{} bytes are kept", after - before));
        if s.len() > 4096 {
            ctx.set_max("permille of bytes used per input byte", (used * 1000 / s.len() as i64) as u64);
        }
        if ok {
            ctx.nontrivial();
        }
        // Serialization and drop of what came out, without Debug.
        (t.go)(s, false);
    }
}

const PIECES: [&str; 30] = [
    "{", "}", "[", "]", ",", ":", "\"", "\\", "/", "-", "+", ".", "0", "1", "9", "e", "E", "u", "n", "null", "true", "false", " ", "\t", "\u{0}", "\u{7f}", "\u{e9}", "\u{2028}", "\u{1f600}", "\"k\":",
];

fn strings(ctx: &mut Ctx, ts: &[Ty]) {
    for len in 0..=ctx.pick(4, 5) {
        words(len, PIECES.len(), &mut |w| {
            // Longer ones start with something that can start a document.
            if len > 3 && !ctx.quick() && len == 5 && ![0, 2, 6, 9, 13].contains(&w[0]) {
                return;
            }
            if !ctx.mine() {
                return;
            }
            let s: String = w.iter().map(|&i| PIECES[i]).collect();
            let n = match len {
                0..=2 => ts.len(),
                3 => ctx.pick(14, ts.len()),
                4 => ctx.pick(2, 14),
                _ => 3,
            };
            case(ctx, "all strings", &ts[..n], &s);
        });
    }
    let toks = ["{", "}", "[", "]", ",", ":", "\"\"", "\"k\"", "1", "-1", "1.5", "null", "true"];
    for len in 0..=ctx.pick(4, 5) {
        words(len, toks.len(), &mut |w| {
            if ctx.mine() {
                let s: String = w.iter().map(|&i| toks[i]).collect();
                case(ctx, "all token strings", &ts[..if len <= ctx.pick(3, 4) { ts.len() } else { 14 }], &s);
            }
        });
    }
}

fn numbers(ctx: &mut Ctx, ts: &[Ty]) {
    let named: Vec<Ty> = ts.iter().filter(|t| ["callbacks", "Value", "f64", "f32", "i8", "u64", "Number", "Vec<f64>"].contains(&t.name)).copied().collect();
    let ab = ["-", "+", ".", "e", "0", "1", "2", "9", "E"];
    for len in 1..=ctx.pick(6, 7) {
        words(len, if len == 7 { 8 } else { 9 }, &mut |w| {
            if ctx.mine() {
                let s: String = w.iter().map(|&i| ab[i]).collect();
                case(ctx, "number strings", &named[..if len > 6 { 3 } else { named.len() }], &s);
            }
        });
    }
    // Every exponent, with digits enough to reach every place where it is counted.
    let mants = ["0", "1", "9", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "0.0", "0.1", "1.000000000000000000000001", "0.00000000000000000000000000000001", "123456789012345678901234.5"];
    for m in mants {
        for neg in ["", "-"] {
            if !ctx.mine() {
                continue;
            }
            for sign in ["", "+", "-"] {
                for e in (0..=2000u64).chain((0..64).flat_map(|k| [(1u64 << k).wrapping_sub(2), (1 << k) - 1, 1 << k, (1 << k) + 1])) {
                    for z in ["", "0", "0000000000"] {
                        case(ctx, "exponents", &named, &format!("{}{}e{}{}{}", neg, m, sign, z, e));
                    }
                }
            }
        }
    }
    for n in lengths(ctx.pick(400, 2000), ctx.pick(1 << 14, 1 << 18)) {
        if !ctx.mine() {
            continue;
        }
        for d in ["0", "1", "9"] {
            let r = d.repeat(n);
            for s in [r.clone(), format!("1{}", r), format!("0.{}", r), format!("0.{}1", r), format!("1.{}e5", r), format!("1e{}", r), format!("1e-{}", r), format!("1e+{}1", r), format!("-1{}.{}", r, r), format!("1{}e-{}", r, n), format!("0.{}1e{}", r, n), format!("1{}E-2147483648", r), format!("0.{}1E2147483647", r)] {
                case(ctx, "long numbers", &named, &s);
                case(ctx, "long numbers", &named[..2], &format!("[{}]", s));
            }
        }
    }
    for x in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, f64::MIN_POSITIVE, 5e-324, f64::MAX, f64::MIN, f64::EPSILON] {
        if ctx.go("serializing any float", x.to_string().as_bytes()) {
            std::hint::black_box((to_string(&x), to_string(&(x as f32)), to_string(&Number::F64(x)), to_string(&vec![Some(x)])));
            std::hint::black_box((format!("{} {:?}", Number::F64(x), Number::F64(x)), format!("{:?}", Value::Number(Number::F64(x)))));
            ctx.nontrivial();
        }
    }
}

fn escapes(ctx: &mut Ctx, ts: &[Ty]) {
    let named: Vec<Ty> = ts.iter().filter(|t| ["callbacks", "Value", "String", "E", "Empty", "BTreeMap<char, bool>", "HashMap<String, u8>"].contains(&t.name)).copied().collect();
    let nib = ["0", "7", "8", "9", "b", "C", "d", "f", "g", "\"", "\u{e9}"];
    let second = ["", "\\", "\\u", "\\uDC00", "\\udfff", "\\uD800", "\\u00", "\\n", "x", "\u{1f600}"];
    for len in 0..=4 {
        words(len, nib.len(), &mut |w| {
            if !ctx.mine() {
                return;
            }
            let h: String = w.iter().map(|&i| nib[i]).collect();
            for t in second {
                for s in [format!("\"\\u{}{}\"", h, t), format!("\"ab\\u{}{}", h, t), format!("{{\"\\u{}{}\":1}}", h, t)] {
                    case(ctx, "unicode escapes", &named, &s);
                }
            }
        });
    }
    let ps = ["\\", "\"", "n", "u", "/", "a", "\u{e9}", "\u{1f600}", "\n", "\u{1f}", "0041", "\u{7f}"];
    for len in 0..=ctx.pick(4, 5) {
        words(len, ps.len(), &mut |w| {
            if ctx.mine() {
                let s: String = w.iter().map(|&i| ps[i]).collect();
                case(ctx, "string pieces", &named, &format!("\"{}", s));
                case(ctx, "string pieces", &named, &format!("\"{}\"", s));
                case(ctx, "string pieces", &named, &format!("{{\"{}\":1}}", s));
            }
        });
    }
}

/// Every string u^n v^n over the pieces, at a size where anything quadratic shows.
fn pumped(ctx: &mut Ctx, ts: &[Ty]) {
    let named: Vec<Ty> = ts.iter().filter(|t| ["callbacks", "Value", "Rec", "Vec<Value>", "String", "St", "Empty"].contains(&t.name)).copied().collect();
    let heads = ["", "[", "{\"k\":", "\"", "{\"x\":[", "[\"", "-1"];
    let n = ctx.pick(3000, 20_000);
    words(2, PIECES.len(), &mut |w| {
        if !ctx.mine() {
            return;
        }
        let (u, v) = (PIECES[w[0]], PIECES[w[1]]);
        for h in heads {
            scale(ctx, "pumped", &named[..2], &format!("{}({}{})^{}", h, u, v, n), &format!("{}{}", h, format!("{}{}", u, v).repeat(n)));
            scale(ctx, "pumped", &named[..2], &format!("{}{}^{} {}^{}", h, u, n, v, n), &format!("{}{}{}", h, u.repeat(n), v.repeat(n)));
        }
    });
    let units: [(&str, &str, &str, &str); 34] = [
        ("[", "[", "", ""), ("", "[", "", "]"), ("", "{\"a\":", "1", "}"), ("", "{\"k\":", "null", "}"), ("", "{\"k\":{\"v\":1,\"k\":", "null", "}}"), ("", "{\"v\":[],\"k\":", "null", "}"),
        ("[0", ",0", "]", ""), ("[", "[],", "[]]", ""), ("[", "{},", "{}]", ""), ("[{", "},{", "}]", ""), ("{\"a\":1", ",\"a\":1", "}", ""), ("{\"a\":[1]", ",\"a\":[1]", "}", ""), ("{\"k\":null", ",\"x\":{}", "}", ""),
        ("\"", "a", "\"", ""), ("\"", "\\u0041", "\"", ""), ("\"", "\\n", "\"", ""), ("\"", "\\ud83d\\ude00", "\"", ""), ("\"", "\u{1f600}", "\"", ""), ("{\"", "a", "\":1}", ""), ("{\"", "\\u0041", "\":1}", ""), ("\"", "a", "", ""),
        ("[\"\"", ",\"\\n\"", "]", ""), ("[null", ",\"a\\\"\"", "]", ""), ("", " ", "1", ""), ("[1", " ", "]", " "), ("1", "0", "", ""), ("0.", "0", "1", ""), ("1e", "0", "1", ""), ("", "-", "", ""), ("[\"", "\\\\", "\"]", ""),
        ("{\"a\":1,\"b\\n\":[", "{\"a\":2},", "{\"a\":3}]}", ""), ("", "{\"a\":1,\"b\\n\":[", "", "]}"), ("[[1", ",1],[1", "]]", ""), ("{\"z\":", "[{\"q\":", "0", "}]"),
    ];
    for n in lengths(3, ctx.pick(1 << 16, 1 << 20)) {
        if n < 1000 || ctx.quick() && n % 2 == 1 && n > 9999 {
            continue;
        }
        for (a, u, m, z) in units {
            if ctx.mine() {
                scale(ctx, "scale", &named, &format!("{}({})^{}{}({})", a, u, n, m, z), &format!("{}{}{}{}", a, u.repeat(n), m, z.repeat(n)));
            }
        }
    }
    // Entries with different keys, numbers of every kind.
    for n in lengths(3, ctx.pick(1 << 16, 1 << 18)) {
        if n >= 1000 && ctx.mine() {
            let s: Vec<String> = (0..n).map(|i| format!("\"{}\":{}", i, i as f64 / 8.0)).collect();
            let maps: Vec<Ty> = ts.iter().filter(|t| t.name.contains("Map<") || ["Value", "Object", "Empty", "callbacks"].contains(&t.name)).copied().collect();
            scale(ctx, "many keys", &maps, &format!("{} keys", n), &format!("{{{}}}", s.join(",")));
            let vecs: Vec<Ty> = ts.iter().filter(|t| t.name.starts_with("Vec<") || t.name.starts_with('[')).copied().collect();
            for e in ["1", "null", "\"a\"", "{}", "[]", "{\"a\":1}"] {
                scale(ctx, "many elements", &vecs, &format!("{} x {}", n, e), &format!("[{}{}]", e, format!(",{}", e).repeat(n)));
            }
        }
    }
}

/// Literals whose digits alone exceed 2^31.
fn gigantic(ctx: &mut Ctx) {
    let n = (1usize << 31) + 64;
    let quick = [("0.", "1"), ("1", "")];
    let more = [("0.", "1e5"), ("1", ".5"), ("-1", "e-2147483647"), ("-0.", "e-2147483647"), ("1e-", "9"), ("1e", ""), ("\"", "\""), ("[\"\\u0041", "\""), ("", "[")];
    for (pre, post) in quick.iter().chain(&more[..ctx.pick(0, more.len())]) {
        if !ctx.mine() {
            continue;
        }
        if ctx.go("gigantic", format!("{}0^{}{}", pre, n, post).as_bytes()) {
            let mut s = String::with_capacity(n + 64);
            s.push_str(pre);
            s.extend(std::iter::repeat("0000000000000000000000000000000000000000000000000000000000000000").take(n / 64));
            s.push_str(post);
            let r = if pre.contains('"') { from_str::<Empty>(&s).is_ok() } else { from_str::<f64>(&s).is_ok() };
            std::hint::black_box(r);
            ctx.nontrivial();
        }
    }
}

fn body(ctx: &mut Ctx) {
    run::QUIET.store(true, std::sync::atomic::Ordering::Relaxed);
    let ts = types();
    ctx.set_max("targets", ts.len() as u64);
    strings(ctx, &ts);
    numbers(ctx, &ts);
    escapes(ctx, &ts);
    pumped(ctx, &ts);
    gigantic(ctx);
}

fn main() {
    run::main(
        Spec {
            property: "C20",
            level: "exploration",
            rule: "every listed string is parsed into every listed type on a build with overflow checks and debug assertions, and what results is serialized, Debug-printed and dropped; a panic, abort, stall, leak, peak memory above 512 bytes (plus four times the target's size) per input byte, or more than two callbacks per byte is a violation.",
            assumptions: &["Debug of deeply nested values is recursive and is left out of the scale families"],
            stall: 90,
            mem_mb: 6144,
            bounds: "all strings of up to 4 (5) of 30 pieces, all number strings of up to 6 (7) characters, all escapes over 11 nibbles, exponents around every power of two, u^n v^n for all pairs of pieces, 34 pumped shapes to 2^16 (2^20), numbers with 2^31 digits",
        },
        body,
    )
}
