//! C23: values stream the same fragments to any consumer.

use mc_core::alloc::{mark, Checked};
use mc_core::gen::{lengths, trees, words};
use mc_core::run::{self, Ctx, Spec};
use mc_core::rv::{read_ok, RV};
use mc_derives::*;
use mc_zoo::says::Says;
use mc_zoo::to_value;
use miniserde::json::{self, Array, Number, Object, Value};
use miniserde::ser::{Fragment, Map, Seq};
use miniserde::Serialize;
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};

#[global_allocator]
static A: Checked = Checked;

enum Frame<'a> {
    Seq(Box<dyn Seq + 'a>, Vec<RV>),
    Map(Box<dyn Map + 'a>, Vec<(String, RV)>),
}
/// A consumer that walks one value, a request at a time. Streams are dropped innermost first.
struct Walk<'a> {
    root: Option<&'a dyn Serialize>,
    stack: Vec<Frame<'a>>,
    /// Keys under which the open containers go.
    keys: Vec<Option<String>>,
    mode: usize,
    seen: Option<RV>,
}
impl Drop for Walk<'_> {
    fn drop(&mut self) {
        while self.stack.pop().is_some() {}
    }
}
/// The consumer keeps the streams of a value's ancestors alive and unasked for as long as it uses
/// what they handed out, as the library's own consumer does.
fn longer<'a>(x: &dyn Serialize) -> &'a dyn Serialize {
    unsafe { std::mem::transmute::<&dyn Serialize, &'a dyn Serialize>(x) }
}
impl<'a> Walk<'a> {
    fn new(root: &'a dyn Serialize, mode: usize) -> Self {
        Walk { root: Some(root), stack: Vec::new(), keys: Vec::new(), mode, seen: None }
    }
    fn put(&mut self, key: Option<String>, v: RV) {
        match (self.stack.last_mut(), key) {
            (None, None) => self.seen = Some(v),
            (Some(Frame::Seq(_, a)), None) => a.push(v),
            (Some(Frame::Map(_, a)), Some(k)) => a.push((k, v)),
            _ => unreachable!(),
        }
    }
    fn open(&mut self, key: Option<String>, x: &'a dyn Serialize) {
        // Some consumers ask twice: to look ahead, or to measure first.
        let mut held = None;
        match self.mode {
            1 => drop(x.begin()),
            2 => match x.begin() {
                Fragment::Seq(mut s) => {
                    s.next();
                    held = Some(Frame::Seq(s, Vec::new()));
                }
                Fragment::Map(mut m) => {
                    m.next();
                    held = Some(Frame::Map(m, Vec::new()));
                }
                _ => {}
            },
            3 => match x.begin() {
                Fragment::Seq(mut s) => while s.next().is_some() {},
                Fragment::Map(mut m) => while m.next().is_some() {},
                _ => {}
            },
            _ => {}
        }
        let f = x.begin();
        drop(held);
        match f {
            Fragment::Null => self.put(key, RV::Null),
            Fragment::Bool(b) => self.put(key, RV::Bool(b)),
            Fragment::Str(s) => self.put(key, RV::Str(s.into_owned())),
            Fragment::U64(n) => self.put(key, RV::Num(n.to_string())),
            Fragment::I64(n) => self.put(key, RV::Num(n.to_string())),
            Fragment::F64(n) if n.is_finite() => self.put(key, RV::Num(format!("{:?}", n))),
            Fragment::F64(_) => self.put(key, RV::Null),
            Fragment::Seq(s) => {
                self.keys.push(key);
                self.stack.push(Frame::Seq(s, Vec::new()))
            }
            Fragment::Map(m) => {
                self.keys.push(key);
                self.stack.push(Frame::Map(m, Vec::new()))
            }
        }
    }
    /// One request. False once the walk is complete.
    fn step(&mut self) -> bool {
        if let Some(r) = self.root.take() {
            self.open(None, r);
            return true;
        }
        let got = match self.stack.last_mut() {
            None => return false,
            Some(Frame::Seq(s, _)) => s.next().map(|x| (None, longer(x))),
            Some(Frame::Map(m, _)) => m.next().map(|(k, x)| (Some(k.into_owned()), longer(x))),
        };
        match got {
            Some((k, x)) => self.open(k, x),
            None => {
                let v = match self.stack.pop().unwrap() {
                    Frame::Seq(mut s, mut a) => {
                        // The end stays the end.
                        for _ in 0..4 {
                            if s.next().is_some() {
                                a.push(RV::Str("after the end".into()));
                            }
                        }
                        drop(s);
                        RV::Arr(a)
                    }
                    Frame::Map(mut m, mut a) => {
                        for _ in 0..4 {
                            if let Some((k, _)) = m.next() {
                                a.push((k.into_owned(), RV::Str("after the end".into())));
                            }
                        }
                        drop(m);
                        RV::Obj(a)
                    }
                };
                let k = self.keys.pop().unwrap();
                self.put(k, v);
            }
        }
        true
    }
    fn finish(&mut self) -> &RV {
        while self.step() {}
        self.seen.as_ref().unwrap()
    }
}

/// Whether a walk showed the value.
type Is<'a> = &'a dyn Fn(&RV) -> bool;

fn consume(ctx: &mut Ctx, x: &dyn Serialize, is: Is, cap: usize) -> Result<usize, String> {
    let m = mark();
    let r = consumers(ctx, x, is, cap);
    if r.is_ok() && mark() != m {
        return Err(format!("{} blocks more than before", mark().blocks - m.blocks));
    }
    r
}
fn consumers(ctx: &mut Ctx, x: &dyn Serialize, is: Is, cap: usize) -> Result<usize, String> {
    let mut n = 0;
    let mut runs = 0;
    let shown = |what: &str, v: &RV| if is(v) { Ok(()) } else { Err(format!("{}: the fragments denote {}", what, v.text().chars().take(300).collect::<String>())) };
    for mode in 0..4 {
        let mut w = Walk::new(x, mode);
        n = 0;
        while w.step() {
            n += 1;
        }
        shown(["one walk", "begun twice", "begun and asked before", "walked before"][mode], w.finish())?;
        runs += 1;
    }
    let text = json::to_string(x);
    match read_ok(&text) {
        Some(v) if is(&v) => {}
        _ => return Err(format!("to_string between walks gives {}", text.chars().take(300).collect::<String>())),
    }
    // Given up after any number of requests, and another walk meanwhile or afterwards.
    let points: Vec<usize> = if n <= cap { (0..=n).collect() } else { (0..6).chain(n / 2 - 1..n / 2 + 2).chain(n - 3..=n).collect() };
    for &k in &points {
        let mut a = Walk::new(x, 0);
        for _ in 0..k {
            a.step();
        }
        let mut b = Walk::new(x, 0);
        shown("walk while another is under way", b.finish())?;
        if json::to_string(x).len() != text.len() {
            return Err("to_string while a walk is under way gives another text".into());
        }
        drop(b);
        shown("walk that was interrupted by another", a.finish())?;
        let mut a = Walk::new(x, 0);
        for _ in 0..k {
            a.step();
        }
        drop(a);
        shown("walk after one that was given up", Walk::new(x, 0).finish())?;
        runs += 4;
        if n <= cap.min(24) {
            for j in 0..n {
                // a, then b, then a again, then b.
                let (mut a, mut b) = (Walk::new(x, 0), Walk::new(x, 0));
                for _ in 0..k {
                    a.step();
                }
                for _ in 0..j {
                    b.step();
                }
                shown("first of two walks", a.finish())?;
                drop(a);
                shown("second of two walks", b.finish())?;
                runs += 2;
            }
        }
    }
    // Every interleaving of two complete walks.
    if n <= 6 {
        let mut bad = None;
        words(2 * n, 2, &mut |w| {
            if bad.is_some() || w.iter().sum::<usize>() != n {
                return;
            }
            let mut ab = [Walk::new(x, 0), Walk::new(x, 0)];
            for &i in w {
                ab[i].step();
            }
            runs += 1;
            for (i, a) in ab.iter_mut().enumerate() {
                if let Err(e) = shown("interleaved walk", a.finish()) {
                    bad = Some(format!("{} {} of {:?}", e, i, w));
                }
            }
        });
        if let Some(b) = bad {
            return Err(b);
        }
    }
    ctx.beat();
    Ok(runs)
}
fn case(ctx: &mut Ctx, fam: &'static str, name: &str, x: &dyn Serialize, is: Is, cap: usize) {
    let name: String = name.chars().take(300).collect();
    ctx.add("walks", 0);
    if ctx.go(fam, name.as_bytes()) {
        match consume(ctx, x, is, cap) {
            Ok(n) => {
                ctx.add("walks", n as u64);
                ctx.nontrivial();
            }
            Err(e) => ctx.fail(e),
        }
    }
}
fn says<T: Says + Serialize>(ctx: &mut Ctx, fam: &'static str, name: &str, x: &T, cap: usize) {
    case(ctx, fam, name, x, &|v| x.says(v), cap)
}

fn typed<T: Make + Serialize + Says>(ctx: &mut Ctx, name: &'static str, budget: usize) {
    let mut c = Chooser::new(budget);
    while !c.done {
        let mine = ctx.mine();
        let x = T::make(&mut c);
        if mine {
            let name = format!("{}: {}", name, c.path());
            says(ctx, "library types", &name, &x, 24);
            if c.used() <= 1 {
                says(ctx, "library types", &format!("&{}", name), &&x, 24);
                says(ctx, "library types", &format!("Box {}", name), &Box::new(&x), 24);
                says(ctx, "library types", &format!("pair {}", name), &(&x, Some(&x)), 24);
                says(ctx, "library types", &format!("array {}", name), &[&x, &x], 24);
                says(ctx, "library types", &format!("map {}", name), &BTreeMap::from([("a", &x), ("b\"", &x)]), 24);
                case(ctx, "library types", &format!("slice {}", name), &&[&x, &x, &x][..], &|v| matches!(v, RV::Arr(a) if a.len() == 3 && a.iter().all(|v| x.says(v))), 24);
                case(ctx, "library types", &format!("dyn {}", name), &(Box::new(&x) as Box<dyn Serialize>), &|v| x.says(v), 24);
                let b: Vec<&dyn Serialize> = vec![&x, &(), &x];
                case(ctx, "library types", &format!("dyns {}", name), &b, &|v| matches!(v, RV::Arr(a) if a.len() == 3 && x.says(&a[0]) && a[1] == RV::Null && x.says(&a[2])), 24);
            }
        }
        c.next();
    }
}
macro_rules! all_typed { ($ctx:expr, $b:expr, $($t:ty),* $(,)?) => { $( typed::<$t>($ctx, stringify!($t), $b); )* } }

fn same(got: &RV, want: &RV) -> bool {
    match (got, want) {
        (RV::Num(a), RV::Num(b)) => a == b || (b.contains(['.', 'e']) && a.parse::<f64>().unwrap().to_bits() == b.parse::<f64>().unwrap().to_bits()),
        (RV::Arr(a), RV::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b)),
        (RV::Obj(a), RV::Obj(b)) => a.len() == b.len() && a.iter().zip(b).all(|((k, a), (l, b))| k == l && same(a, b)),
        _ => got == want,
    }
}
fn defined<T: Def + Make + Serialize>(ctx: &mut Ctx, name: &'static str) {
    let n = T::fields().map_or(1, |f| f.len());
    let mut c = Chooser::new(match n {
        0..=6 => ctx.pick(2, 3),
        7..=12 => ctx.pick(1, 2),
        _ => 1,
    });
    let mut i = 0;
    while !c.done {
        let mine = ctx.mine();
        let x = T::make(&mut c);
        i += 1;
        if mine && (n <= 40 || i <= 8) {
            let want = x.written();
            case(ctx, "derived", &format!("{} {}", name, c.path()), &x, &|v| same(v, &want), if n > 12 { 8 } else { 24 });
            let two = vec![&x, &x];
            case(ctx, "derived", &format!("Vec {} {}", name, c.path()), &two, &|v| matches!(v, RV::Arr(a) if a.len() == 2 && same(&a[0], &want) && same(&a[1], &want)), 16);
        }
        c.next();
    }
}
macro_rules! each { ($ctx:ident, $([$t:ty])*) => { $( defined::<$t>($ctx, stringify!($t)); )* } }

fn body(ctx: &mut Ctx) {
    let sc = [RV::Null, RV::Num("1".into()), RV::Str("é\"".into()), RV::Num("-2.5".into())];
    for (n, sc, ks) in [(ctx.pick(4, 5), &sc[..], &["a", "b"][..]), (ctx.pick(7, 8), &sc[1..2], &["k"])] {
        for t in trees(n, sc, ks) {
            if !ctx.mine() {
                continue;
            }
            let v = to_value(&t);
            says(ctx, "untyped values", &t.text(), &v, 24);
            match &v {
                Value::Array(a) => {
                    says(ctx, "untyped values", &format!("Array {}", t.text()), a, 24);
                    says(ctx, "untyped values", &format!("slice {}", t.text()), &a.as_slice().iter().collect::<Vec<_>>(), 24);
                }
                Value::Object(o) => says(ctx, "untyped values", &format!("Object {}", t.text()), o, 24),
                _ => {}
            }
        }
    }
    let b = ctx.pick(3, 4);
    all_typed!(ctx, b,
        (), bool, u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, f32, f64, String, Number, Value, Array, Object,
        Option<()>, Option<u8>, Option<Option<u8>>, Box<Option<f64>>, Vec<Option<String>>, Vec<Vec<u8>>, Vec<Vec<Vec<()>>>, Vec<(u8, Vec<u8>)>,
        [Vec<u8>; 2], [[u8; 2]; 2], [Option<f32>; 3], [u8; 0], (Vec<u8>, BTreeMap<String, u8>), ((), ((), ())), (Box<u8>, Option<Box<String>>),
        BTreeMap<String, Vec<u8>>, BTreeMap<String, BTreeMap<String, Option<u8>>>, HashMap<String, Vec<String>>, HashMap<String, (u8, Object)>,
        Vec<Value>, Vec<BTreeMap<String, Value>>, Option<Array>, (Value, Object), Box<Vec<Box<Value>>>, Vec<HashMap<String, u8>>, (i64, (f64, (String, Option<bool>))),
    );
    for s in ["", "x", "é\"\\\u{1}"] {
        if ctx.mine() {
            says(ctx, "library types", &format!("str {:?}", s), &s, 24);
            says(ctx, "library types", &format!("Cow borrowed {:?}", s), &Cow::Borrowed(s), 24);
            says(ctx, "library types", &format!("Cow owned {:?}", s), &Cow::<str>::Owned(s.into()), 24);
        }
    }
    // Every 8- and 16-bit integer, and every end: the fragment holds exactly the number.
    for n in i16::MIN..=i16::MAX {
        if n % 64 != 0 || !ctx.mine() {
            continue;
        }
        let ok = |x: &dyn Serialize, want: i64| match x.begin() {
            Fragment::I64(m) => m == want,
            Fragment::U64(m) => m as i64 == want && want >= 0,
            _ => false,
        };
        if ctx.go("integers", format!("from {}", n).as_bytes()) {
            for n in n..=n + 63 {
                ctx.check(ok(&n, n as i64) && ok(&(n as i8), n as i8 as i64) && ok(&(n as u8), n as u8 as i64) && ok(&(n as u16), n as u16 as i64) && ok(&(n as i64 * 0x1_0001_0001), n as i64 * 0x1_0001_0001), || format!("{}", n));
                ctx.check(matches!((n as u16 as f32 / 8.0).begin(), Fragment::F64(x) if x == n as u16 as f64 / 8.0), || format!("{}", n));
            }
            ctx.nontrivial();
        }
    }
    for n in lengths(ctx.pick(70, 300), ctx.pick(4096, 65536)) {
        if !ctx.mine() {
            continue;
        }
        let v: Vec<u64> = (0..n as u64).collect();
        says(ctx, "sizes", &format!("Vec {}", n), &v, 20);
        let m: BTreeMap<u32, Option<u8>> = (0..n as u32).map(|i| (i, if i % 3 == 0 { None } else { Some(i as u8) })).collect();
        says(ctx, "sizes", &format!("BTreeMap {}", n), &m, 20);
        let h: HashMap<u32, Option<u8>> = m.clone().into_iter().collect();
        says(ctx, "sizes", &format!("HashMap {}", n), &h, 20);
        let a: Array = (0..n).map(|i| if i % 2 == 0 { Value::Null } else { Value::Number(Number::U64(i as u64)) }).collect();
        says(ctx, "sizes", &format!("Array {}", n), &a, 20);
        let o: Object = (0..n).map(|i| (i.to_string(), Value::Bool(i % 2 == 0))).collect();
        says(ctx, "sizes", &format!("Object {}", n), &o, 20);
        let mut deep = Value::Null;
        for i in 0..n.min(3000) {
            deep = if i % 2 == 0 { Value::Array([deep].into_iter().collect()) } else { Value::Object([("k".to_string(), deep)].into_iter().collect()) };
        }
        says(ctx, "sizes", &format!("deep {}", n), &deep, 20);
    }
    macro_rules! go { ($([$t:ty])*) => { each!(ctx, $([$t])*) } }
    structs!(go);
    enums!(go);
}

fn main() {
    run::main(
        Spec {
            property: "C23",
            level: "exploration",
            rule: "the fragments and streams of each value are walked by a hand-written consumer: once; after beginning it and throwing that away, asking it once, or walking it completely; given up after every number of requests; two walks of one value nested and overlapping at every pair of points, and in every interleaving of their requests for small values; with to_string in between. Every complete walk must show the value, and the checked allocator must balance.",
            assumptions: &["the reference meaning of the values"],
            stall: 60,
            mem_mb: 8192,
            bounds: "all trees of up to 4 (5) nodes over 4 scalars, 7 (8) over one; 45 library types with up to 3 (4) non-default choices, also inside 9 others; all 8- and 16-bit integers; sizes to 4096 (65536); 96 derived definitions; all interleavings of walks of up to 6 requests, all pairs of points to 24, chosen points beyond",
        },
        body,
    )
}
