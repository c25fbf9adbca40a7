//! C11: map entries and keys survive conversion in both directions.

use mc_core::gen::{lengths, words};
use mc_core::run::{self, Ctx, Spec};
use mc_core::rv::{quote, read_ok, RV};
use mc_zoo::exact::Exact;
use mc_zoo::says::Says;
use mc_zoo::{parse, vals, Model, Tri};
use miniserde::json::{self, Array, Object, Value};
use miniserde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::cmp::Ordering;
use std::collections::hash_map::RandomState;
use std::collections::{BTreeMap, HashMap};
use std::fmt;
use std::hash::{BuildHasher, BuildHasherDefault, Hash, Hasher};
use std::net::{IpAddr, Ipv4Addr};
use std::num::NonZeroU8;
use std::str::FromStr;

// ---- hashers ----
#[derive(Default, Clone)]
struct Zero;
impl Hasher for Zero {
    fn write(&mut self, _: &[u8]) {}
    fn finish(&self) -> u64 {
        0
    }
}
#[derive(Default, Clone)]
struct Fnv(u64);
impl Hasher for Fnv {
    fn write(&mut self, b: &[u8]) {
        for b in b {
            self.0 = (self.0 ^ *b as u64).wrapping_mul(0x100000001b3);
        }
    }
    fn finish(&self) -> u64 {
        self.0
    }
}
/// A hasher whose default instance differs every time.
struct Odd(u64);
impl Default for Odd {
    fn default() -> Self {
        use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
        static N: AtomicU64 = AtomicU64::new(1);
        Odd(N.fetch_add(0x9e3779b97f4a7c15, Relaxed))
    }
}
impl BuildHasher for Odd {
    type Hasher = Fnv;
    fn build_hasher(&self) -> Fnv {
        Fnv(self.0)
    }
}
type ZeroB = BuildHasherDefault<Zero>;
type FnvB = BuildHasherDefault<Fnv>;

// ---- keys ----
/// Converts by remainder: many texts per key. Refuses what is not a number.
#[derive(PartialEq, Eq, Hash, PartialOrd, Ord, Clone, Debug)]
struct Mod3(u8);
impl FromStr for Mod3 {
    type Err = ();
    fn from_str(s: &str) -> Result<Self, ()> {
        s.parse::<u64>().map(|n| Mod3((n % 3) as u8)).map_err(|_| ())
    }
}
impl fmt::Display for Mod3 {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
/// Equal regardless of case, in descending order; keeps its spelling.
#[derive(Clone, Debug)]
struct NoCase(String);
impl PartialEq for NoCase {
    fn eq(&self, o: &Self) -> bool {
        self.0.eq_ignore_ascii_case(&o.0)
    }
}
impl Eq for NoCase {}
impl Hash for NoCase {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.to_ascii_lowercase().hash(h)
    }
}
impl PartialOrd for NoCase {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for NoCase {
    fn cmp(&self, o: &Self) -> Ordering {
        o.0.to_ascii_lowercase().cmp(&self.0.to_ascii_lowercase())
    }
}
impl FromStr for NoCase {
    type Err = fmt::Error;
    fn from_str(s: &str) -> Result<Self, fmt::Error> {
        Ok(NoCase(s.to_string()))
    }
}
impl fmt::Display for NoCase {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
/// Everything is the same key.
#[derive(PartialEq, Eq, Hash, PartialOrd, Ord, Clone, Debug)]
struct One;
impl FromStr for One {
    type Err = String;
    fn from_str(_: &str) -> Result<Self, String> {
        Ok(One)
    }
}
impl fmt::Display for One {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("one\"\n")
    }
}
/// Refuses the empty text and anything with a quote or a control character.
#[derive(PartialEq, Eq, Hash, PartialOrd, Ord, Clone, Debug)]
struct Picky(Box<str>);
impl FromStr for Picky {
    type Err = ();
    fn from_str(s: &str) -> Result<Self, ()> {
        if s.is_empty() || s.contains(|c: char| c == '"' || c.is_control()) {
            Err(())
        } else {
            Ok(Picky(s.into()))
        }
    }
}
impl fmt::Display for Picky {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
/// Distinct keys whose text is the same.
#[derive(PartialEq, Eq, Hash, PartialOrd, Ord, Clone, Debug)]
struct Same(u16);
impl fmt::Display for Same {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "same\\{}", self.0 / 1000)
    }
}
/// A key whose text is written in several pieces and padded.
#[derive(PartialEq, Eq, Hash, PartialOrd, Ord, Clone, Debug)]
struct Pieces(u32, char);
impl fmt::Display for Pieces {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.1)?;
        f.pad("")?;
        write!(f, "{:>4}:{:#x}", self.0, self.0)?;
        f.write_str("\u{1f}")
    }
}

/// The document with the given entries; keys are spelled raw or fully escaped.
fn doc(entries: &[(&str, &str)], style: usize) -> String {
    let mut s = String::from("{");
    for (i, (k, v)) in entries.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        if (style >> (i % 2)) & 1 == 0 {
            quote(k, &mut s);
        } else {
            s.push('"');
            for u in k.encode_utf16() {
                s.push_str(&format!("\\u{:04x}", u));
            }
            s.push_str("\" ");
        }
        s.push(':');
        if style == 3 {
            s.push('\n');
        }
        s.push_str(v);
    }
    s.push('}');
    s
}

/// Written from the property: last value per converted key; everything must convert.
fn map_is<'a, K: FromStr + PartialEq, V: Model + 'a>(o: &[(String, RV)], len: usize, get: &dyn Fn(&K) -> Option<&'a V>) -> bool {
    let mut want: Vec<(K, &RV)> = Vec::new();
    for (k, v) in o {
        let Ok(k) = K::from_str(k) else { return false };
        match want.iter_mut().find(|(l, _)| *l == k) {
            Some(e) => e.1 = v,
            None => want.push((k, v)),
        }
    }
    len == want.len() && want.iter().all(|(k, v)| get(k).map_or(false, |x| x.is(v)))
}
fn acceptable<K: FromStr, V: Model>(o: &[(String, RV)]) -> Tri {
    mc_zoo::all(o.iter().map(|(k, v)| if K::from_str(k).is_err() { Tri::No } else { V::accepts(v) }))
}
fn outcome(want: Tri, got: Option<bool>) -> Option<&'static str> {
    match (want, got) {
        (Tri::No, Some(_)) => Some("accepted, must be refused"),
        (Tri::Yes, None) => Some("refused, must be accepted"),
        (_, Some(false)) => Some("accepted with wrong entries"),
        _ => None,
    }
}

fn both<K, V>(text: &str, o: &[(String, RV)]) -> Result<bool, String>
where
    K: FromStr + Ord + Hash + Eq + 'static,
    V: Model + Deserialize + 'static,
{
    let want = acceptable::<K, V>(o);
    macro_rules! one { ($t:ty) => {{
        let got = parse::<$t>(text);
        let r = got.as_ref().ok().map(|m| map_is::<K, V>(o, m.len(), &|k| m.get(k)) && m.iter().count() == m.len());
        if let Some(m) = outcome(want, r) {
            return Err(format!("{}: {}", stringify!($t), m));
        }
    }} }
    one!(BTreeMap<K, V>);
    one!(HashMap<K, V>);
    one!(HashMap<K, V, ZeroB>);
    one!(HashMap<K, V, FnvB>);
    one!(HashMap<K, V, Odd>);
    Ok(want == Tri::Yes)
}

type Both = fn(&str, &[(String, RV)]) -> Result<bool, String>;
struct Keys {
    name: &'static str,
    texts: &'static [&'static str],
    run: [Both; 4],
}
const VALS: [&[&str]; 4] = [&["1", "2", "300", "null"], &["1", "null", "\"x\""], &["[]", "[1,2]", "{}"], &["[7,{}]", "[{\"a\":1},8]", "[1]"]];

macro_rules! keys { ($($t:ty: $texts:expr;)*) => { vec![$( Keys {
    name: stringify!($t),
    texts: &$texts,
    run: [both::<$t, u8>, both::<$t, Option<u8>>, both::<$t, Vec<u8>>, both::<$t, (Value, Value)>],
} ),*] } }
fn keys() -> Vec<Keys> {
    keys! {
        String: ["a", "b", "", "\"\\", "A"];
        u8: ["1", "01", "+1", "2", "256", "-1", ""];
        i8: ["-1", "-01", "1", "128", "-0", "0"];
        u64: ["18446744073709551615", "+18446744073709551615", "18446744073709551616", "0", "1e0"];
        i64: ["-9223372036854775808", "9223372036854775807", "9223372036854775808", "0007", "7"];
        bool: ["true", "false", "True", "1"];
        char: ["a", "\u{0}", "é", "😀", "ab", ""];
        NonZeroU8: ["1", "001", "0", "255"];
        IpAddr: ["::1", "0:0:0:0:0:0:0:1", "127.0.0.1", "127.1"];
        Mod3: ["0", "1", "3", "4", "x"];
        NoCase: ["a", "A", "b", "B", ""];
        One: ["", "x", "y\n"];
        Picky: ["a", "b", "", "\""];
        usize: ["5", "05", "6"];
        i128: ["-170141183460469231731687303715884105728", "1", "+1"];
    }
}

fn parsing(ctx: &mut Ctx) {
    for k in keys() {
        for (vi, vs) in VALS.iter().enumerate() {
            let max = match (vi, k.texts.len()) {
                (0, 0..=4) => ctx.pick(4, 5),
                (0, _) => ctx.pick(3, 4),
                _ => ctx.pick(3, 4),
            };
            for len in 0..=max {
                words(len, k.texts.len() * vs.len(), &mut |w| {
                    if !ctx.mine() {
                        return;
                    }
                    let es: Vec<(&str, &str)> = w.iter().map(|&i| (k.texts[i / vs.len()], vs[i % vs.len()])).collect();
                    for style in if len <= 2 { 0..4 } else { 0..1 + len % 2 * 3 } {
                        if len > 2 && style % 3 != 0 {
                            continue;
                        }
                        let text = doc(&es, style);
                        if !ctx.go("entry sequences", format!("{}/{} {}", k.name, vi, text).as_bytes()) {
                            continue;
                        }
                        let Some(RV::Obj(o)) = read_ok(&text) else { panic!("{}", text) };
                        match (k.run[vi])(&text, &o) {
                            Ok(true) => ctx.nontrivial(),
                            Ok(false) => {}
                            Err(m) => ctx.fail(m),
                        }
                        ctx.add("outcomes", 5);
                    }
                });
            }
        }
    }
}

/// Every short text as a key, and every character around the texts that convert: the key type alone
/// decides whether a text is a key, and which.
fn texts(ctx: &mut Ctx) {
    let ks = keys();
    let check = |ctx: &mut Ctx, k: &Keys, t: &str| {
        for (at, es) in [(0, vec![(t, "1")]), (1, vec![(t, "1"), (k.texts[0], "2")]), (2, vec![(k.texts[0], "2"), (t, "1")])] {
            if !ctx.go("key texts", format!("{} {} {:?}", k.name, at, t).as_bytes()) {
                continue;
            }
            for style in 0..3 {
                let text = doc(&es, style);
                let Some(RV::Obj(o)) = read_ok(&text) else { panic!("{}", text) };
                match (k.run[0])(&text, &o) {
                    Ok(true) => ctx.nontrivial(),
                    Ok(false) => {}
                    Err(m) => ctx.fail(m),
                }
            }
        }
    };
    for len in 0..=ctx.pick(4, 5) {
        let cs = ["0", "1", "+", "-", " ", "\t", "a", "\u{0}", "\u{a0}", ".", "e", "\""];
        words(len, cs.len(), &mut |w| {
            if ctx.mine() {
                let t: String = w.iter().map(|&i| cs[i]).collect();
                for k in &ks[..if len < 4 { ks.len() } else { 4 }] {
                    check(ctx, k, &t);
                }
            }
        });
    }
    for c in (0..0x180u32).chain([0x1680, 0x2000, 0x2003, 0x200b, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000, 0xfeff, 0xff11, 0x1d7d9, 0x10ffff]) {
        if ctx.mine() {
            let c = char::from_u32(c).unwrap();
            for k in &ks {
                for t in k.texts {
                    for x in [format!("{}{}", c, t), format!("{}{}", t, c), format!("{}{}{}", c, t, c), format!("{}{}", c, c)] {
                        check(ctx, k, &x);
                    }
                }
            }
        }
    }
}

/// Long key sequences over few keys, and long objects with one bad entry at each position.
fn long(ctx: &mut Ctx) {
    let ks = keys();
    for k in &ks {
        for len in 5..=ctx.pick(9, 12) {
            words(len, 2, &mut |w| {
                if !ctx.mine() {
                    return;
                }
                let vs: Vec<String> = (0..len).map(|i| i.to_string()).collect();
                let es: Vec<(&str, &str)> = w.iter().enumerate().map(|(i, &b)| (k.texts[b], vs[i].as_str())).collect();
                let text = doc(&es, 0);
                if ctx.go("long sequences over two keys", format!("{} {}", k.name, text).as_bytes()) {
                    let Some(RV::Obj(o)) = read_ok(&text) else { panic!() };
                    if let Err(m) = (k.run[0])(&text, &o) {
                        ctx.fail(m);
                    }
                    ctx.nontrivial();
                }
            });
        }
    }
    for n in lengths(ctx.pick(70, 300), ctx.pick(4096, 1 << 17)) {
        for shape in 0..5usize {
            if !ctx.mine() || !ctx.go("sizes", format!("{} {}", n, shape).as_bytes()) {
                continue;
            }
            // Distinct keys; each key twice apart; all same; descending with a gap; colliding spellings.
            let key = |i: usize| -> String {
                match shape {
                    0 => i.to_string(),
                    1 => (i % (n / 2 + 1)).to_string(),
                    2 => "7".into(),
                    3 => ((n - i) * 3).to_string(),
                    _ => format!("{:0w$}", i / 2, w = 1 + i % 2 * 9),
                }
            };
            let es: Vec<(String, String)> = (0..n).map(|i| (key(i), (i % 251).to_string())).collect();
            let es: Vec<(&str, &str)> = es.iter().map(|(k, v)| (k.as_str(), v.as_str())).collect();
            let text = doc(&es, shape % 2);
            macro_rules! one { ($k:ty, $m:ty) => {{
                let mut want: BTreeMap<$k, u8> = BTreeMap::new();
                for (k, v) in &es {
                    want.insert(<$k>::from_str(k).unwrap(), v.parse().unwrap());
                }
                match parse::<$m>(&text) {
                    Err(_) => ctx.fail(concat!(stringify!($m), ": refused")),
                    Ok(m) => {
                        let same = m.len() == want.len() && want.iter().all(|(k, v)| m.get(k) == Some(v));
                        ctx.check(same, || concat!(stringify!($m), ": wrong entries").into());
                        if let Some(e) = written(&m, &json::to_string(&m)) {
                            ctx.fail(e);
                        }
                    }
                }
            }} }
            one!(u64, BTreeMap<u64, u8>);
            one!(u64, HashMap<u64, u8>);
            one!(u64, HashMap<u64, u8, FnvB>);
            one!(String, BTreeMap<String, u8>);
            one!(String, HashMap<String, u8, Odd>);
            one!(Mod3, HashMap<Mod3, u8, ZeroB>);
            if n <= 512 {
                one!(String, HashMap<String, u8, ZeroB>);
                // One bad entry anywhere makes the whole object unacceptable.
                let mut spots: Vec<usize> = if n <= 40 { (0..n).collect() } else { vec![0, 1, n / 2, n - 2, n - 1] };
                spots.retain(|&i| i < n);
                for i in spots {
                    let mut bad = es.clone();
                    bad[i].0 = "x";
                    let t = doc(&bad, 0);
                    ctx.check(parse::<BTreeMap<u64, u8>>(&t).is_err() && parse::<HashMap<u64, u8>>(&t).is_err(), || format!("key {} does not convert, yet accepted", i));
                    bad[i] = (es[i].0, "256");
                    let t = doc(&bad, 0);
                    ctx.check(parse::<BTreeMap<u64, u8>>(&t).is_err() && parse::<HashMap<u64, u8>>(&t).is_err(), || format!("value {} is unacceptable, yet accepted", i));
                    ctx.check(parse::<BTreeMap<String, u8>>(&t).is_err() && parse::<HashMap<String, u8>>(&t).is_err(), || format!("value {} is unacceptable, yet accepted", i));
                }
            }
            ctx.nontrivial();
        }
    }
}

fn written<M: Says>(m: &M, text: &str) -> Option<String> {
    match read_ok(text) {
        None => Some(format!("not a JSON text: {}", text.chars().take(200).collect::<String>())),
        Some(v) if !m.says(&v) => Some(format!("denotes other entries: {}", text.chars().take(200).collect::<String>())),
        Some(_) => None,
    }
}

fn ser<K, V>(ctx: &mut Ctx, fam: &'static str, name: &str, all: &[K], v: &dyn Fn(usize) -> V, max: usize)
where
    K: ToString + Ord + Hash + Clone + fmt::Debug,
    V: Serialize + Says,
{
    // Every subset of the keys up to a size, inserted in listed order.
    let n = all.len();
    let mut pick: Vec<Vec<usize>> = vec![vec![]];
    let mut last = pick.clone();
    for _ in 0..max {
        last = last.iter().flat_map(|p| (p.last().map_or(0, |x| x + 1)..n).map(move |i| [p.clone(), vec![i]].concat())).collect();
        pick.extend(last.iter().cloned());
    }
    for p in pick {
        if !ctx.mine() || !ctx.go(fam, format!("{} {:?}", name, p.iter().map(|&i| &all[i]).collect::<Vec<_>>()).as_bytes()) {
            continue;
        }
        macro_rules! one { ($m:ty) => {{
            let m: $m = p.iter().map(|&i| (all[i].clone(), v(i))).collect();
            let t = json::to_string(&m);
            if let Some(e) = written(&m, &t) {
                ctx.fail(format!("{}: {}", stringify!($m), e));
            }
            if let Some(e) = written(&m, &json::to_string(&m)) {
                ctx.fail(format!("second time: {}", e));
            }
            let b = Some(Box::new(&m));
            ctx.check(json::to_string(&b) == t, || "another text inside Some(Box)".into());
        }} }
        one!(BTreeMap<K, V>);
        one!(HashMap<K, V>);
        one!(HashMap<K, V, ZeroB>);
        one!(HashMap<K, V, Odd>);
        ctx.nontrivial();
    }
}

fn serializing(ctx: &mut Ctx) {
    let m = ctx.pick(3, 4);
    let strs: Vec<String> = vals::CLASSES.iter().map(|c| c.to_string()).chain(["".into(), "ab".into(), "a\"b".into(), "\\u0041".into(), "é\n".into()]).collect();
    ser(ctx, "written keys", "String", &strs, &|i| i, m);
    ser(ctx, "written keys", "&str", &strs.iter().map(|s| s.as_str()).collect::<Vec<_>>(), &|i| Some(i), 2);
    ser(ctx, "written keys", "Cow", &strs.iter().map(|s| Cow::Borrowed(s.as_str())).collect::<Vec<_>>(), &|i| vec![i], 2);
    ser(ctx, "written keys", "char", &vals::CLASSES, &|i| (i, i), m);
    ser(ctx, "written keys", "bool", &[true, false], &|i| i, 2);
    ser(ctx, "written keys", "i8", &[-128i8, -1, 0, 1, 9, 10, 99, 100, 127], &|i| BTreeMap::from([(i, i)]), m);
    ser(ctx, "written keys", "u64", &[0u64, 1, 9, 10, 11, 100, u64::MAX, 1 << 63], &|_| (), m);
    ser(ctx, "written keys", "i64", &[i64::MIN, i64::MAX, -10, -9, 10, 9], &|_| Value::Null, m);
    ser(ctx, "written keys", "u128", &[0u128, u128::MAX, 1 << 64], &|i| i, m);
    ser(ctx, "written keys", "Ipv4Addr", &[Ipv4Addr::new(1, 2, 3, 4), Ipv4Addr::new(10, 0, 0, 1), Ipv4Addr::new(9, 255, 0, 0)], &|i| i, m);
    ser(ctx, "written keys", "NoCase", &[NoCase("b".into()), NoCase("A\"".into()), NoCase("".into()), NoCase("\u{1}".into())], &|i| i, m);
    ser(ctx, "written keys", "One", &[One], &|i| i, 1);
    ser(ctx, "written keys", "Same", &[Same(0), Same(1), Same(2), Same(1000), Same(1001)], &|i| i, 5);
    ser(ctx, "written keys", "Pieces", &[Pieces(0, '"'), Pieces(1, '\\'), Pieces(255, 'é'), Pieces(65535, '\n')], &|i| i, 4);
    ser(ctx, "written keys", "Mod3", &[Mod3(0), Mod3(1), Mod3(2)], &|i| i, 3);
    // Integer keys around everything that matters.
    for n in vals::u64s().chunks(16) {
        if ctx.mine() && ctx.go("integer keys", n[0].to_string().as_bytes()) {
            let m: BTreeMap<u64, u64> = n.iter().map(|x| (*x, !*x)).collect();
            let t = json::to_string(&m);
            if let Some(e) = written(&m, &t) {
                ctx.fail(e);
            }
            ctx.check(parse::<BTreeMap<u64, u64>>(&t).map_or(false, |b| b == m), || "no round trip".into());
            let m: HashMap<i64, u64> = n.iter().map(|x| (*x as i64, !*x)).collect();
            let t = json::to_string(&m);
            if let Some(e) = written(&m, &t) {
                ctx.fail(e);
            }
            ctx.check(parse::<HashMap<i64, u64>>(&t).map_or(false, |b| b == m), || "no round trip".into());
            ctx.nontrivial();
        }
    }
    for b in 0..0x1100u32 {
        if ctx.mine() {
            for u in b * 256..b * 256 + 256 {
                let Some(c) = char::from_u32(u) else { continue };
                if ctx.go("every character as a key", c.encode_utf8(&mut [0; 4]).as_bytes()) {
                    let m = BTreeMap::from([(c, u)]);
                    let t = json::to_string(&m);
                    ctx.check(parse::<BTreeMap<char, u32>>(&t).map_or(false, |b| b == m), || format!("no round trip: {}", t));
                    if let Some(e) = written(&m, &t) {
                        ctx.fail(e);
                    }
                    if u % 64 == 0 {
                        ctx.nontrivial();
                    }
                }
            }
        }
    }
}

/// Maps inside other types, and other types inside maps: outer and inner entries do not mix.
fn nested(ctx: &mut Ctx) {
    let inner: [&str; 6] = ["{}", "{\"1\":1}", "{\"1\":1,\"01\":2}", "{\"2\":null,\"1\":3}", "{\"x\":1}", "[]"];
    let max = ctx.pick(4, 5);
    for len in 0..=max {
        words(len, inner.len() * 3, &mut |w| {
            if !ctx.mine() {
                return;
            }
            let es: Vec<(&str, &str)> = w.iter().map(|&i| (["1", "2", "+1"][i / 6], inner[i % 6])).collect();
            let text = doc(&es, 0);
            if !ctx.go("nested maps", text.as_bytes()) {
                return;
            }
            let v = read_ok(&text).unwrap();
            type A = BTreeMap<u8, BTreeMap<u8, Option<u8>>>;
            type B = HashMap<u8, HashMap<u8, Option<Box<u8>>, FnvB>, ZeroB>;
            type C = BTreeMap<String, Option<HashMap<u8, Option<u8>>>>;
            type D = HashMap<u8, Box<BTreeMap<String, Option<u8>>>>;
            let mut any = false;
            let a = parse::<A>(&text);
            if let Ok(x) = &a {
                any = true;
                ctx.check(parse::<A>(&json::to_string(x)).map_or(false, |y| x.same(&y)), || "no round trip".into());
            }
            for r in [
                mc_zoo::judge::<A>(Some(&v), &a),
                mc_zoo::judge::<B>(Some(&v), &parse(&text)),
                mc_zoo::judge::<C>(Some(&v), &parse(&text)),
                mc_zoo::judge::<D>(Some(&v), &parse(&text)),
                mc_zoo::judge::<Vec<A>>(Some(&RV::Arr(vec![v.clone(), v.clone()])), &parse(&format!("[{},{}]", text, text))),
                mc_zoo::judge::<(B, Option<C>)>(Some(&RV::Arr(vec![v.clone(), RV::Null])), &parse(&format!("[{},null]", text))),
                mc_zoo::judge::<Object>(Some(&v), &parse(&text)),
                mc_zoo::judge::<BTreeMap<String, Value>>(Some(&v), &parse(&text)),
                mc_zoo::judge::<HashMap<String, Result1>>(Some(&v), &parse(&text)),
            ] {
                if let Err(m) = r {
                    ctx.fail(m);
                }
            }
            if any {
                ctx.nontrivial();
            }
        });
    }
    // Non-objects are no maps.
    for t in ["[]", "null", "1", "\"\"", "true", "[[\"1\",1]]", "{", "{\"1\":1", "{\"1\":1,}", "{\"1\"}", "{1:1}", "{\"1\":1}}", "{\"\\ud800\":1}", "{\"1\\u00\":1}", "{\"1\":1 \"2\":2}", "{\"1\":1],", "{\"1\",1}"] {
        if ctx.mine() && ctx.go("not an object", t.as_bytes()) {
            ctx.check(
                parse::<BTreeMap<u8, u8>>(t).is_err() && parse::<HashMap<u8, u8>>(t).is_err() && parse::<HashMap<String, Value, ZeroB>>(t).is_err() && parse::<BTreeMap<One, u8>>(t).is_err(),
                || "accepted".into(),
            );
            ctx.nontrivial();
        }
    }
    let _ = Array::new();
}
type Result1 = Value;

fn body(ctx: &mut Ctx) {
    parsing(ctx);
    texts(ctx);
    long(ctx);
    serializing(ctx);
    nested(ctx);
}

fn main() {
    run::main(
        Spec {
            property: "C11",
            level: "exploration",
            rule: "bounded exhaustive enumeration: for 15 key types x 4 value types x 5 map types, all entry sequences to a length over key texts (colliding and refused ones included) and value literals in several spellings, compared with an association list; long sequences over two keys; size lists with a bad entry at each position; every subset of key lists serialized with 4 map types; every character and boundary integer as a key; nested maps",
            assumptions: &["key types convert, hash and compare consistently, as std requires"],
            stall: 60,
            mem_mb: 4096,
            bounds: "entry sequences of length <= 3..4 (thorough 4..5), over two keys <= 9 (12); all key texts to 4 (5) of 12 characters and every of 397 characters around the listed ones; sizes dense to 70 (300) and 2^k, 10^k +-1 to 4096 (131072)",
        },
        body,
    )
}
