//! The space of C16, executed by the interpreter (Miri) and natively under AddressSanitizer.

use crate::{mark, Mark};
use mc_core::gen::{trees, words};
use mc_core::rv::RV;
use mc_probe::dec::{targets, Target, HB};
use mc_probe::serde_side::{node, Rs, Told, N, TK};
use mc_probe::{also_panic_at, unwinds, Act, Ev, Run};
use miniserde::de::{Deserialize, Visitor};
use miniserde::json::{from_str, to_string, Array, Number, Object, Value};
use miniserde::{make_place, Serialize};
use std::collections::{BTreeMap, HashMap};

/// Who executes the cases.
pub trait Sink {
    /// Whether the next unit is this process's share.
    fn mine(&mut self) -> bool;
    fn go(&mut self, fam: &'static str, case: &dyn Fn() -> String) -> bool;
    fn fail(&mut self, msg: String);
    fn nontrivial(&mut self);
    fn add(&mut self, key: &'static str, n: u64);
    /// Interpreted quick, interpreted thorough, native quick, native thorough.
    fn level(&self) -> usize;
}
fn pick<T: Copy>(s: &dyn Sink, v: [T; 4]) -> T {
    v[s.level()]
}

const NEVER: usize = usize::MAX;

// ---- types of unusual layout, with places of their own

/// Over-aligned.
#[repr(align(64))]
#[derive(Debug, PartialEq)]
pub struct Al(u8);
/// Zero-sized, counted.
#[derive(Debug, PartialEq)]
pub struct Zs;
/// Larger than a page.
pub struct Big([u64; 600]);
/// With a niche that makes Option<Self> the same size.
pub struct Ni(std::num::NonZeroU8, Box<u8>);
/// Half initialized: padding between the members.
#[repr(C)]
pub struct Pad(u8, u64, u8);
/// Interior mutability.
pub struct Ce(std::cell::Cell<u32>, std::rc::Rc<std::cell::RefCell<Vec<u8>>>);
make_place!(Place);
macro_rules! number_type { ($t:ty, $n:ident => $e:expr) => {
    impl Deserialize for $t { fn begin(out: &mut Option<Self>) -> &mut dyn Visitor { Place::new(out) } }
    impl Visitor for Place<$t> {
        fn nonnegative(&mut self, $n: u64) -> miniserde::Result<()> { self.out = Some($e); Ok(()) }
        fn boolean(&mut self, _: bool) -> miniserde::Result<()> { self.out = None; Err(miniserde::Error) }
    }
} }
number_type!(Al, n => Al(n as u8));
number_type!(Zs, _n => Zs);
number_type!(Big, n => Big([n; 600]));
number_type!(Ni, n => Ni(std::num::NonZeroU8::new(n as u8 | 1).unwrap(), Box::new(n as u8)));
number_type!(Pad, n => Pad(n as u8, n, 1));
number_type!(Ce, n => Ce(std::cell::Cell::new(n as u32), Default::default()));

// ---- derived types

#[derive(miniserde::Deserialize, Serialize)]
pub struct D1 {
    a: String,
    b: Option<Box<D1>>,
    c: Vec<D2>,
}
#[derive(miniserde::Deserialize, Serialize)]
pub enum D2 {
    #[serde(rename = "x")]
    X,
    Y,
}
#[derive(miniserde::Deserialize)]
pub struct D3<'a, const N: usize, T, U>
where
    T: 'a,
{
    a: [T; N],
    b: Option<U>,
    c: Ph<'a>,
}
pub struct Ph<'a>(std::marker::PhantomData<&'a ()>);
impl<'a> Deserialize for Ph<'a> {
    fn begin(out: &mut Option<Self>) -> &mut dyn Visitor {
        Place::new(out)
    }
}
impl<'a> Visitor for Place<Ph<'a>> {
    fn null(&mut self) -> miniserde::Result<()> {
        self.out = Some(Ph(std::marker::PhantomData));
        Ok(())
    }
}
#[derive(miniserde::Deserialize)]
pub struct D4 {
    a: Al,
    b: Option<Zs>,
    c: Option<Big>,
}
#[derive(miniserde::Deserialize)]
pub struct D5<T> {
    a: T,
}

/// A library or derived type parsed from a document, used, and dropped.
pub struct Plain {
    pub name: &'static str,
    pub run: fn(&str) -> bool,
}
fn parse<T: Deserialize>(s: &str) -> bool {
    from_str::<T>(s).is_ok()
}
fn both<T: Deserialize + Serialize>(s: &str) -> bool {
    match from_str::<T>(s) {
        Ok(t) => {
            let a = to_string(&t);
            // Moved before its next use.
            let b = Box::new(t);
            let c = to_string(&b);
            assert!(a == c, "two texts of one value");
            true
        }
        Err(_) => false,
    }
}
macro_rules! plains { ($f:ident: $($t:ty),* $(,)?) => { vec![$( Plain { name: stringify!($t), run: $f::<$t> } ),*] } }
pub fn plains() -> Vec<Plain> {
    let mut v = plains![both: Value, Array, Object, Number, Vec<Value>, Option<Value>, Box<Value>, (Value, Value), [Value; 2], BTreeMap<String, Value>,
        HashMap<String, Value>, HashMap<String, Vec<Option<u8>>>, BTreeMap<u8, Box<[u8; 1]>>, String, Vec<String>, Option<String>, Box<String>, [String; 2], [String; 0], (String, Box<String>),
        (), Vec<()>, [(); 2], Option<()>, Box<()>, u8, f32, f64, bool, Box<Box<Box<Value>>>, Box<Array>, Box<Object>, Option<Option<Box<Vec<Object>>>>,
        D1, D2, Vec<D1>, Box<D1>, [D2; 2], BTreeMap<String, D1>, HashMap<String, D2>, [[String; 2]; 2], [Box<[String; 2]>; 2], (Vec<String>, [Vec<String>; 1]), [Option<Box<String>>; 1]];
    v.extend(plains![parse: Al, Zs, Big, Ni, Pad, Ce, Box<Al>, Box<Zs>, Box<Big>, Box<Ni>, Vec<Al>, Vec<Zs>, Vec<Big>, Vec<Pad>, Option<Al>, Option<Zs>, Option<Ni>, [Al; 2], [Zs; 2], [Zs; 0], [Al; 0], [Big; 2], [Ni; 1], [Pad; 2],
        (Al, Zs), (Zs, Big), (u8, Al), (Ce, Ce), BTreeMap<String, Al>, HashMap<String, Zs>, BTreeMap<String, Ce>, [Box<Al>; 2], Box<[Al; 2]>, Box<(Al, Al)>, Box<BTreeMap<u8, Al>>, [[Zs; 1]; 2], [[Al; 1]; 1], Option<[Ni; 2]>,
        D3<'static, 2, u8, u8>, D3<'static, 1, String, Al>, D3<'static, 0, Al, Zs>, D3<'static, 3, Zs, Box<D4>>, Box<D3<'static, 2, Box<u8>, u8>>, D4, Box<D4>, [D4; 1], Option<Box<D4>>, D5<D5<[Box<D5<u8>>; 1]>>, D5<Box<Al>>, D5<Option<[Al; 1]>>, D5<HashMap<String, D4>>,
        D5<Box<D5<Box<D5<Box<u8>>>>>>, D5<(Big, Al)>, D5<Vec<[Ni; 1]>>, Box<D5<[Pad; 2]>>]);
    v
}

// ---- verdicts

fn level_of(base: Mark, what: &str) -> Result<(), String> {
    let m = mark();
    if m != base {
        return Err(format!("{}: {} blocks and {} bytes are not released", what, m.0 - base.0, m.1 - base.1));
    }
    Ok(())
}

fn after<R>(r: Run<R>, k: usize, failed: &[usize], hash: bool, m0: Mark) -> Result<(), String> {
    if let Some(b) = r.bad {
        return Err(b);
    }
    if k < r.log.len() {
        unwinds(&r.log, k, failed)?;
    }
    let leak_ok = hash && matches!(r.log.get(k), Some(Ev::Dead(_)));
    drop(r.log);
    drop(r.result);
    if leak_ok {
        return Ok(());
    }
    if r.alive != 0 {
        return Err(format!("{} values are not dropped", r.alive));
    }
    level_of(m0, "afterwards")
}

/// One document into one instrumented target: unharmed, and with an error and a panic at every
/// point (up to `limit` of them at either end).
fn faults(s: &mut dyn Sink, t: &Target, doc: &str, limit: usize, pairs: bool) -> Result<usize, String> {
    let base = (t.go)(doc, NEVER, Act::Nothing);
    let log = base.log.clone();
    if base.bad.is_some() || base.alive != 0 {
        return Err(base.bad.unwrap_or("values are not dropped".into()));
    }
    drop(base);
    let m0 = mark();
    let r = (t.go)(doc, NEVER, Act::Nothing);
    after(r, NEVER, &[], t.hash, m0)?;
    let n = log.len();
    for k in 0..n {
        if n > 2 * limit && k >= limit && k < n - limit {
            continue;
        }
        for act in [Act::Err, Act::Panic] {
            if act == Act::Err && !(log[k].callback() || log[k] == Ev::Aux("convert")) {
                continue;
            }
            // A std HashMap itself leaks when the drop of an entry panics: keep the interpreter's leak check usable.
            if t.hash && matches!(log[k], Ev::Dead(_)) {
                continue;
            }
            let m0 = mark();
            let r = (t.go)(doc, k, act);
            let l = r.log.len();
            after(r, k, &[k], t.hash, m0).map_err(|e| format!("{:?} at call {} ({:?}): {}", act, k, log[k], e))?;
            s.add("faults", 1);
            if pairs && act == Act::Err {
                for j in k + 1..l {
                    if t.hash {
                        break;
                    }
                    also_panic_at(j);
                    let m0 = mark();
                    let r = (t.go)(doc, k, Act::Err);
                    also_panic_at(NEVER);
                    after(r, j, &[k, j], t.hash, m0).map_err(|e| format!("an error at call {} and a panic at call {}: {}", k, j, e))?;
                    s.add("faults", 1);
                }
            }
        }
    }
    Ok(n)
}

fn into_targets(s: &mut dyn Sink, fam: &'static str, ts: &[Target], doc: &str, limit: usize, pairs: bool) {
    for t in ts {
        if s.go(fam, &|| format!("{}: {}", t.name, doc)) {
            match faults(s, t, doc, limit, pairs) {
                Ok(n) if n > 2 => s.nontrivial(),
                Ok(_) => {}
                Err(e) => s.fail(e),
            }
        }
    }
}
fn into_plain(s: &mut dyn Sink, fam: &'static str, ps: &[Plain], doc: &str) {
    for p in ps {
        if s.go(fam, &|| format!("{}: {}", p.name, doc)) {
            let m0 = mark();
            let ok = (p.run)(doc);
            if let Err(e) = level_of(m0, "afterwards") {
                s.fail(e);
            }
            if ok || doc.len() > 2 {
                s.nontrivial();
            }
        }
    }
}

fn serialize(s: &mut dyn Sink, fam: &'static str, name: &dyn Fn() -> String, x: &dyn Told, limit: usize) {
    if !s.go(fam, name) {
        return;
    }
    let base = mc_probe::serde_side::go(x, NEVER, Act::Nothing);
    if let Some(b) = base.bad {
        s.fail(b);
        return;
    }
    let n = base.log.len();
    let log = base.log;
    for k in 0..n {
        if n > 2 * limit && k >= limit && k < n - limit {
            continue;
        }
        let m0 = mark();
        let r = mc_probe::serde_side::go(x, k, Act::Panic);
        if let Err(e) = after(r, k, &[k], false, m0) {
            s.fail(format!("a panic at call {} ({:?}): {}", k, log[k], e));
        }
        s.add("faults", 1);
    }
    s.nontrivial();
}

// ---- histories of untyped values

/// Operations on a register of values; what is taken out lands in the other register.
type Op = (&'static str, fn(&mut Value, &mut Value));
fn arr(v: &mut Value) -> Option<&mut Array> {
    match v {
        Value::Array(a) => Some(a),
        _ => None,
    }
}
fn obj(v: &mut Value) -> Option<&mut Object> {
    match v {
        Value::Object(o) => Some(o),
        _ => None,
    }
}
fn take(v: &mut Value) -> Value {
    std::mem::take(v)
}
const OPS: &[Op] = &[
    ("clone", |a, b| *b = a.clone()),
    ("clone_from", |a, b| b.clone_from(a)),
    ("swap", |a, b| std::mem::swap(a, b)),
    ("drop", |a, _| *a = Value::Null),
    ("debug", |a, _| drop(format!("{:?}", a))),
    ("text", |a, b| *b = from_str(&to_string(a)).unwrap()),
    ("array into_iter, first", |a, b| {
        if let Value::Array(v) = take(a) {
            if let Some(x) = v.into_iter().next() {
                *b = x;
            }
        }
    }),
    ("array into_iter, last", |a, b| {
        if let Value::Array(v) = take(a) {
            let mut i = v.into_iter();
            if let Some(x) = i.next_back() {
                *b = x;
            }
            *a = Value::Array(i.collect::<Array>());
        }
    }),
    ("array into_iter unused", |a, _| {
        if let Value::Array(v) = take(a) {
            let _i = v.into_iter();
        }
    }),
    ("array iter_mut", |a, b| {
        if let Some(v) = arr(a) {
            for x in &mut *v {
                std::mem::swap(x, b);
            }
        }
    }),
    ("array push", |a, b| {
        let x = take(b);
        if let Some(v) = arr(a) {
            v.push(x);
        }
    }),
    ("array pop", |a, b| {
        if let Some(v) = arr(a) {
            if let Some(x) = v.pop() {
                *b = x;
            }
        }
    }),
    ("array drain", |a, b| {
        if let Some(v) = arr(a) {
            let n = v.len();
            if let Some(x) = v.drain(n / 2..).next() {
                *b = x;
            }
        }
    }),
    ("array retain", |a, _| {
        if let Some(v) = arr(a) {
            let mut k = false;
            v.retain(|_| {
                k = !k;
                k
            });
        }
    }),
    ("array take inner", |a, _| {
        if let Some(v) = arr(a) {
            let inner = std::mem::take(&mut **v);
            let boxed = inner.into_boxed_slice();
            **v = boxed.into_vec();
        }
    }),
    ("array clone_from", |a, b| {
        if let (Some(x), Some(y)) = (arr(a), arr(b)) {
            y.clone_from(x);
        }
    }),
    ("object into_iter, first", |a, b| {
        if let Value::Object(v) = take(a) {
            if let Some((_, x)) = v.into_iter().next() {
                *b = x;
            }
        }
    }),
    ("object into_iter, last", |a, b| {
        if let Value::Object(v) = take(a) {
            let mut i = v.into_iter();
            if let Some((_, x)) = i.next_back() {
                *b = x;
            }
            *a = Value::Object(i.collect::<Object>());
        }
    }),
    ("object into_iter unused", |a, _| {
        if let Value::Object(v) = take(a) {
            let _i = v.into_iter();
        }
    }),
    ("object iter_mut", |a, b| {
        if let Some(v) = obj(a) {
            for (_, x) in &mut *v {
                std::mem::swap(x, b);
            }
        }
    }),
    ("object insert", |a, b| {
        let x = take(b);
        if let Some(v) = obj(a) {
            v.insert("a".into(), x);
        }
    }),
    ("object remove", |a, b| {
        if let Some(v) = obj(a) {
            if let Some(x) = v.remove("a") {
                *b = x;
            }
        }
    }),
    ("object entry", |a, b| {
        let x = take(b);
        if let Some(v) = obj(a) {
            *v.entry("c".into()).or_default() = x;
        }
    }),
    ("object split_off", |a, b| {
        if let Some(v) = obj(a) {
            let tail = v.split_off("b");
            *b = Value::Object(tail.into_iter().collect());
        }
    }),
    ("object take inner", |a, _| {
        if let Some(v) = obj(a) {
            let inner = std::mem::take(&mut **v);
            **v = inner;
        }
    }),
    ("wrap", |a, _| {
        let x = take(a);
        let mut v = Array::new();
        v.push(x);
        *a = Value::Array(v);
    }),
    ("wrap twice", |a, b| {
        let x = take(a);
        let y = take(b);
        let mut o = Object::new();
        o.insert("a".into(), x);
        o.insert("b".into(), y);
        *a = Value::Object(o);
    }),
    ("in a box on another thread", |a, _| {
        let x = Box::new(take(a));
        *a = *std::thread::spawn(move || x).join().unwrap();
    }),
];
fn histories(s: &mut dyn Sink) {
    let starts = ["[]", "{}", "[1,[2,\"x\"],{\"a\":\"y\"}]", "{\"a\":[1],\"b\":{\"a\":null},\"c\":\"z\"}"];
    let len = pick(s, [1, 2, 2, 3]);
    for n in 0..=len {
        words(n, OPS.len(), &mut |w| {
            if !s.mine() {
                return;
            }
            for (i, a) in starts.iter().enumerate() {
                let names: Vec<&str> = w.iter().map(|&o| OPS[o].0).collect();
                // Threads need system calls and are slow: not in the long ones.
                if w.len() > 1 && (names.contains(&"in a box on another thread") || (s.level() == 1 && i < 3)) {
                    continue;
                }
                let b = starts[(i + 1 + n) % starts.len()];
                if s.go("histories of values", &|| format!("{} {}: {}", a, b, names.join(", "))) {
                    let go = || {
                        let mut x: Value = from_str(a).unwrap();
                        let mut y: Value = from_str(b).unwrap();
                        for &o in w {
                            (OPS[o].1)(&mut x, &mut y);
                        }
                        to_string(&(x, y)).len()
                    };
                    let threads = names.contains(&"in a box on another thread");
                    if !threads {
                        go();
                    }
                    let m0 = mark();
                    let l = go();
                    std::hint::black_box(l);
                    if !threads {
                        if let Err(e) = level_of(m0, "afterwards") {
                            s.fail(e);
                        }
                    }
                    s.nontrivial();
                }
            }
        });
    }
}

// ---- threads

/// Pairs of calls at the same time; whatever they share inside the library without
/// synchronization is a data race for the interpreter, in any schedule.
fn threads(s: &mut dyn Sink) {
    let shared: Value = from_str("{\"a\\n\":[1,-2.5,\"x\"],\"b\":{}}").unwrap();
    let calls: Vec<(&str, Box<dyn Fn() -> usize + Send + Sync>)> = vec![
        ("ignored content", Box::new(|| parse::<D5<u8>>("{\"q\":[{\"x\\n\":[1]}],\"a\":1}") as usize)),
        ("escapes", Box::new(|| parse::<Vec<String>>("[\"a\\n\",\"b\\u0041\"]") as usize)),
        ("untyped", Box::new(|| both::<Value>("{\"k\":[1,2.5e7,{}],\"k\":null}") as usize)),
        ("derived", Box::new(|| both::<D1>("{\"a\":\"s\",\"b\":{\"a\":\"t\",\"c\":[]},\"c\":[\"x\"]}") as usize)),
        ("failing", Box::new(|| parse::<Box<[Box<Al>; 2]>>("[1,2,3") as usize)),
        ("hash map", Box::new(|| both::<HashMap<String, Vec<u8>>>("{\"a\":[1],\"b\":[]}") as usize)),
        ("text of a shared value", Box::new(move || to_string(&shared).len())),
        ("long number", Box::new(|| parse::<f64>("12345678901234567890123.5e-10") as usize)),
    ];
    for i in 0..calls.len() {
        for j in i..calls.len() {
            if !s.mine() {
                continue;
            }
            if s.go("calls at the same time", &|| format!("{} and {}", calls[i].0, calls[j].0)) {
                let (a, b) = std::thread::scope(|sc| {
                    let x = sc.spawn(|| (calls[i].1)());
                    let y = sc.spawn(|| (calls[j].1)());
                    (x.join(), y.join())
                });
                let (wa, wb) = ((calls[i].1)(), (calls[j].1)());
                if a.ok() != Some(wa) || b.ok() != Some(wb) {
                    s.fail("a call gives something else when another runs at the same time".into());
                }
                s.nontrivial();
            }
        }
    }
}

fn wrapped(s: &mut dyn Sink, t: &RV, mix: usize) {
    let kids: Vec<RV> = match t {
        RV::Arr(a) => a.clone(),
        RV::Obj(o) => o.iter().map(|e| e.1.clone()).collect(),
        _ => return,
    };
    let mut ids = 0;
    let mut mk = || -> Vec<N> { kids.iter().map(|k| node(k, mix, &mut ids)).collect() };
    let name = |w: &'static str| move || format!("{} {} {}", w, mix, t.text());
    let fam = "serializing library types";
    let ends = pick(s, [3, 10, 20, 20]);
    serialize(s, fam, &name("Vec"), &mk(), ends);
    let m: BTreeMap<TK, Option<Box<N>>> = mk().into_iter().enumerate().map(|(i, n)| (TK(format!("k{}", i)), Some(Box::new(n)))).collect();
    serialize(s, fam, &name("BTreeMap"), &m, ends);
    let m: HashMap<TK, _, HB> = m.into_iter().collect();
    serialize(s, fam, &name("HashMap"), &m, ends);
    let mut it = mk().into_iter();
    if let (Some(a), Some(b)) = (it.next(), it.next()) {
        let r = Rs { a, b: Some(&b), c: it.map(Box::new).collect() };
        serialize(s, fam, &name("derived"), &[&r, &r], ends);
        serialize(s, fam, &name("pair"), &(&r, BTreeMap::from([(TK("x".into()), &b)])), ends);
    }
}

pub fn explore(s: &mut dyn Sink) {
    let ts = targets();
    let ps = plains();
    // What is allocated once and kept (by std, say) is so before the first count.
    s.add("faults", 0);
    for p in &ps {
        for d in pick(s, [&["{\"\":[1.5,\"\\n\"]}"][..], &["{\"\":[1.5,\"\\n\"]}"], &["{\"\":[1.5,\"\\n\"]}", "[]", "\"x\"", "1"], &["[]", "1"]]) {
            if s.go("first runs", &|| format!("{}: {}", p.name, d)) {
                (p.run)(d);
            }
        }
    }
    // What every type accepts, by shape, and every way to cut it short or to spoil it.
    let toks = ["[", "]", "{", "}", ",", ":", "\"a\"", "1"];
    let sc = [RV::Null, RV::Num("1".into()), RV::Str("x\n".into())];
    let full = pick(s, [2, 3, 4, 5]);
    let opened = pick(s, [1, 2, 2, 2]);
    for len in 0..=full {
        words(len, toks.len(), &mut |w| {
            if (len > opened && w[0] != 0 && w[0] != 2) || !s.mine() {
                return;
            }
            let d: String = w.iter().map(|&i| toks[i]).collect();
            if s.level() != 1 || len < 3 {
                let (ends, pairs) = (pick(s, [1, 2, 4, 4]), len <= 3 && s.level() > 1);
                into_targets(s, "all token words", &ts, &d, ends, pairs);
            }
            // The longest ones, interpreted, are dealt out to the types.
            if s.level() == 1 && len == 3 {
                let turn = w.iter().sum::<usize>() % 4;
                for p in ps.chunks(1).skip(turn).step_by(4) {
                    into_plain(s, "all token words, plain", p, &d);
                }
            } else {
                into_plain(s, "all token words, plain", &ps, &d);
            }
        });
    }
    let nodes = pick(s, [2, 3, 3, 4]);
    let cut = pick(s, [1, 1, 2, 3]);
    let ends = pick(s, [2, 2, 20, 30]);
    let mut turn = 0;
    for t in trees(nodes, &sc, &["a", "c"]) {
        if !s.mine() {
            continue;
        }
        let d = t.text();
        let pairs = t.nodes() <= cut && s.level() > 1;
        if s.level() == 1 && t.nodes() == nodes {
            turn = (turn + 1) % 4;
            for one in ts.chunks(1).skip(turn).step_by(4) {
                into_targets(s, "all trees", one, &d, ends, pairs);
            }
        } else {
            into_targets(s, "all trees", &ts, &d, ends, pairs);
        }
        if s.level() == 1 && t.nodes() == nodes {
            for one in ps.chunks(1).skip(turn % 2).step_by(2) {
                into_plain(s, "all trees, plain", one, &d);
            }
        } else {
            into_plain(s, "all trees, plain", &ps, &d);
        }
        if t.nodes() <= cut {
            for i in 1..d.len() {
                let ends = pick(s, [1, 3, 3, 3]);
                into_targets(s, "truncated", &ts, &d[..i], ends, false);
                into_plain(s, "truncated, plain", &ps, &d[..i]);
            }
        }
    }
    // Documents made for the types: nested boxes, arrays, pairs and structs, with repeated keys.
    let docs = [
        "{\"a\":{\"a\":{\"a\":1}}}",
        "{\"a\":1,\"b\":2,\"c\":3}",
        "{\"a\":{\"a\":[{\"a\":1}]}}",
        "{\"a\":[1,2],\"b\":1,\"c\":null}",
        "{\"a\":[1],\"b\":{\"a\":1,\"b\":2},\"c\":null}",
        "{\"a\":[1,2,3],\"b\":{\"a\":1,\"a\":2,\"c\":3},\"c\":null}",
        "{\"a\":[1,2],\"a\":[3,4]}",
        "{\"a\":[1,2],\"a\":[3]}",
        "{\"a\":[1,2],\"a\":[3,4,5]}",
        "{\"a\":1,\"a\":2,\"b\":[1],\"b\":[2],\"c\":[3],\"c\":[]}",
        "{\"a\":{\"a\":1},\"a\":{\"a\":2}}",
        "{\"a\":\"s\",\"b\":{\"a\":\"t\",\"c\":[\"x\"]},\"b\":{\"a\":\"u\",\"c\":[]},\"c\":[\"Y\",\"x\"]}",
        "{\"a\":\"s\",\"b\":{\"a\":\"t\",\"c\":[\"x\"]},\"b\":null,\"c\":[\"z\"]}",
        "{\"z\":[{\"a\":[1]},\"\\n\"],\"a\":1,\"c\":[2]}",
        "[[1,2],[3,4]]",
        "[[1,2],[3]]",
        "[[\"a\",\"b\\n\"],[\"c\\t\",\"d\"]]",
        "[[\"a\",\"b\"],[\"c\"]]",
        "[[\"a\"],[[\"b\"]]]",
        "[{\"a\":1,\"c\":[]},{\"a\":2,\"c\":[1]}]",
        "[{\"a\":1},{\"b\":[]}]",
        "[1,[2]]",
        "[[1],2]",
        "[1,2,3]",
        "{\"1\":[1],\"01\":[2],\"x\":[3]}",
        "{\"1\":1,\"2\":2,\"1\":3}",
        "{\"a\":{\"b\":{\"c\":1,\"d\":[2]}},\"e\":{\"a\":{}}}",
        "[\"x\",\"Y\"]",
        "[\"x\",\"q\"]",
        "{\"a\":[[1,1]],\"x\":[]}",
        "[true,1]",
        "[1,true]",
        "{\"a\":true}",
        "[1,1,true]",
    ];
    for (n, d) in docs.into_iter().enumerate() {
        for part in ts.chunks(8) {
            if s.mine() {
                let (ends, pairs) = (pick(s, [1, 2, 30, 60]), s.level() > 1);
                // Interpreted, the later ones are dealt out to the targets.
                let part = if s.level() == 1 && n > 11 { &part[n % 2 * part.len() / 2..(1 + n % 2) * part.len() / 2] } else { part };
                into_targets(s, "made for the types", part, d, ends, pairs);
            }
        }
        for part in ps.chunks(25) {
            if s.mine() {
                into_plain(s, "made for the types, plain", part, d);
            }
        }
        if n >= pick(s, [1, 2, 99, 99]) {
            continue;
        }
        for i in 1..d.len() {
            if s.mine() {
                if s.level() > 1 || n < 2 && s.level() > 0 {
                    let ends = pick(s, [1, 1, 4, 8]);
                    into_targets(s, "made for the types", &ts, &d[..i], ends, false);
                }
                into_plain(s, "made for the types, plain", &ps, &d[..i]);
            }
        }
    }
    // Serialization.
    for t in trees(pick(s, [3, 3, 4, 5]), &sc[..2], &["k\n"]) {
        if s.mine() {
            for mix in [0, 31, 10, 21] {
                if s.level() == 0 && mix == 10 {
                    break;
                }
                let ends = pick(s, [3, 10, 40, 40]);
                serialize(s, "serializing all trees", &|| format!("{} {}", mix, t.text()), &node(&t, mix, &mut 0), ends);
            }
            if t.nodes() <= pick(s, [2, 3, 5, 5]) {
                wrapped(s, &t, 0);
                wrapped(s, &t, 31);
            }
        }
    }
    // Growth of the stacks and buffers while references into them are alive.
    for n in pick(s, [&[9usize][..], &[5, 17, 33], &[5, 9, 17, 33, 65, 300, 3000], &[5, 9, 17, 33, 65, 300, 3000, 40000]]) {
        let ends = pick(s, [1, 1, 2, 2]);
        let few = &[0usize, 43, 6, 7, 36, 1, 3][..pick(s, [2, 4, 7, 7])];
        for d in [
            format!("{}0{}", "[".repeat(*n), "]".repeat(*n)),
            format!("{}0{}", "{\"a\":".repeat(*n), "}".repeat(*n)),
            format!("{}0{}", "[1,{\"a\":".repeat(*n), "}]".repeat(*n)),
            format!("{}{{\"a\":1}}{}", "{\"a\":1,\"b\":".repeat(*n), "}".repeat(*n)),
            format!("[{}]", vec!["\"a\\n\""; *n].join(",")),
            format!("{{{}}}", (0..*n).map(|i| format!("\"k{}\\n\":[\"{}\\t\"]", i % 7, i)).collect::<Vec<_>>().join(",")),
            format!("\"{}\"", "ab\\n".repeat(*n)),
        ] {
            if !s.mine() {
                continue;
            }
            for &i in few {
                into_targets(s, "growth", &ts[i..i + 1], &d, ends, false);
            }
            into_plain(s, "growth, plain", &ps[..12.min(ps.len())], &d);
        }
    }
    texts(s);
    histories(s);
    threads(s);
}

/// Every fill of the scratch buffer an escape may meet, and every way it got there.
fn texts(s: &mut dyn Sink) {
    let ps: Vec<Plain> = plains().into_iter().filter(|p| matches!(p.name, "String" | "Vec<String>" | "Value")).collect();
    let ends = ["\\n", "\\u0041", "\\u00e9", "\\u20ac", "\\ud83d\\ude00", "é", "\\u20acx", "\\ud83d", "\\u12"];
    let dense = pick(s, [36, 70, 140, 600]);
    for n in mc_core::gen::lengths(dense, pick(s, [64, 256, 4096, 70_000])) {
        if !s.mine() {
            continue;
        }
        let x = "x".repeat(n);
        for (i, e) in ends.iter().enumerate() {
            if s.level() < 2 && (i > 4 || n > 40) && n % 8 > s.level() {
                continue;
            }
            // Straight from the input; after an escape, which puts it into the buffer; in steps
            // of one and of four bytes; and when an earlier string already made room.
            let mut ds = vec![format!("[\"{}{}\"]", x, e), format!("[\"\\t{}{}\",\"{}\"]", x, e, e)];
            if s.level() > 0 || n % 4 == 0 {
                ds.extend([format!("[\"{}{}\"]", "\\/".repeat(n), e), format!("[\"{}{}\"]", "\\ud83d\\ude00".repeat(n / 4), e), format!("[\"{}\\n\",\"\\b{}{}\",\"{}\"]", x, &x[..n / 2], e, e)]);
            }
            for d in ds {
                into_plain(s, "texts", &ps[2..], &d);
                if s.level() > 1 {
                    into_plain(s, "texts", &ps[..2], &d);
                    into_plain(s, "texts", &ps, &d[1..d.find(',').unwrap_or(d.len() - 1)]);
                }
            }
        }
        // Keys and strings written out, with an escape at the end.
        for e in ["", "\n", "\u{1}", "é\u{1f600}"] {
            if s.go("texts written", &|| format!("{} {:?}", n, e)) {
                let m0 = mark();
                let v = BTreeMap::from([(format!("{}{}", x, e), format!("{}{}", e, x))]);
                let t = to_string(&v);
                if from_str::<BTreeMap<String, String>>(&t).ok().as_ref() != Some(&v) {
                    s.fail("not read back".into());
                }
                drop((v, t));
                if let Err(e) = level_of(m0, "afterwards") {
                    s.fail(e);
                }
                s.nontrivial();
            }
        }
    }
}
