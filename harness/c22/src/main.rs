//! C22: target types give the same result under any driver.

use mc_core::alloc::{mark, Checked};
use mc_core::gen::{lengths, trees};
use mc_core::num::{num_ref, NumRef};
use mc_core::run::{self, Ctx, Spec};
use mc_core::rv::RV;
use mc_derives::*;
use mc_zoo::parse;
use miniserde::de::{Map, Seq, Visitor};
use miniserde::json::{Array, Number, Object, Value};
use miniserde::{make_place, Deserialize, Result as R};
use std::collections::{BTreeMap, HashMap};

#[global_allocator]
static A: Checked = Checked;

/// What a driver tells a visitor.
enum D {
    Null,
    Bool(bool),
    Str(String),
    Neg(i64),
    Non(u64),
    Float(f64),
    Seq(Vec<D>),
    Map(Vec<(String, D)>),
}
fn dictated(v: &RV) -> D {
    match v {
        RV::Null => D::Null,
        RV::Bool(b) => D::Bool(*b),
        RV::Str(s) => D::Str(s.clone()),
        RV::Num(l) => match num_ref(l) {
            NumRef::Int(n, _) if n < 0 => D::Neg(n as i64),
            NumRef::Int(n, _) => D::Non(n as u64),
            NumRef::Float { v, .. } => D::Float(v),
            NumRef::TooBig => unreachable!(),
        },
        RV::Arr(a) => D::Seq(a.iter().map(dictated).collect()),
        RV::Obj(o) => D::Map(o.iter().map(|(k, v)| (k.clone(), dictated(v))).collect()),
    }
}
impl D {
    fn calls(&self) -> usize {
        match self {
            D::Seq(a) => 2 + a.iter().map(|x| 1 + x.calls()).sum::<usize>(),
            D::Map(a) => 2 + a.iter().map(|x| 1 + x.1.calls()).sum::<usize>(),
            _ => 1,
        }
    }
}

enum End {
    Refused,
    Abandoned,
}
/// Drives a visitor; gives up before call number `left`.
fn drive(v: &mut dyn Visitor, d: &D, left: &mut usize) -> Result<(), End> {
    fn tick(left: &mut usize) -> Result<(), End> {
        if *left == 0 {
            return Err(End::Abandoned);
        }
        *left -= 1;
        Ok(())
    }
    tick(left)?;
    let no = |_| End::Refused;
    match d {
        D::Null => v.null().map_err(no),
        D::Bool(b) => v.boolean(*b).map_err(no),
        D::Str(s) => v.string(s).map_err(no),
        D::Neg(n) => v.negative(*n).map_err(no),
        D::Non(n) => v.nonnegative(*n).map_err(no),
        D::Float(n) => v.float(*n).map_err(no),
        D::Seq(a) => {
            let mut b = v.seq().map_err(no)?;
            for x in a {
                tick(left)?;
                drive(b.element().map_err(no)?, x, left)?;
            }
            tick(left)?;
            b.finish().map_err(no)
        }
        D::Map(a) => {
            let mut b = v.map().map_err(no)?;
            for (k, x) in a {
                tick(left)?;
                drive(b.key(k).map_err(no)?, x, left)?;
            }
            tick(left)?;
            b.finish().map_err(no)
        }
    }
}

struct Doc {
    v: RV,
    d: D,
    text: String,
    calls: usize,
}
fn doc(v: RV) -> Doc {
    let d = dictated(&v);
    Doc { calls: d.calls(), text: v.text(), d, v }
}

/// Drives of one place, each given up before the given call (or complete).
type Step<'a> = (&'a Doc, usize);
const ALL: usize = usize::MAX;
type Play = fn(&[Step]) -> Result<bool, String>;

fn play<T: Model + Deserialize>(steps: &[Step]) -> Result<bool, String> {
    let m = mark();
    let r = plays::<T>(steps);
    if r.is_ok() && mark() != m {
        return Err(format!("{} blocks more than before", mark().blocks - m.blocks));
    }
    r
}
fn plays<T: Model + Deserialize>(steps: &[Step]) -> Result<bool, String> {
    let mut place: Option<T> = None;
    let mut any = false;
    for (i, (doc, stop)) in steps.iter().enumerate() {
        let can = T::accepts(&doc.v);
        match drive(T::begin(&mut place), &doc.d, &mut stop.clone()) {
            Ok(()) if can == Tri::No => return Err(format!("drive {}: no callback failed, must be refused", i)),
            Ok(()) => match &place {
                None => return Err(format!("drive {}: nothing in the place", i)),
                Some(x) if !x.is(&doc.v) => return Err(format!("drive {}: a wrong value in the place", i)),
                Some(_) => any = true,
            },
            Err(End::Refused) if can == Tri::Yes && *stop >= doc.calls => return Err(format!("drive {}: refused, must be accepted", i)),
            Err(_) => {}
        }
    }
    Ok(any)
}
/// The same through the parser.
fn parsed<T: Model + Deserialize>(doc: &Doc) -> Result<(), String> {
    mc_zoo::judge::<T>(Some(&doc.v), &parse::<T>(&doc.text)).map_err(|e| format!("through from_str: {}", e))
}

make_place!(Place);
/// A user's type whose visitor forwards everything to that of another type.
struct Fwd<T>(Option<T>);
impl<T: Deserialize> Deserialize for Fwd<T> {
    fn begin(out: &mut Option<Self>) -> &mut dyn Visitor {
        Place::new(out)
    }
}
impl<T: Deserialize> Place<Fwd<T>> {
    fn to(&mut self) -> &mut dyn Visitor {
        T::begin(&mut self.out.get_or_insert(Fwd(None)).0)
    }
}
impl<T: Deserialize> Visitor for Place<Fwd<T>> {
    fn null(&mut self) -> R<()> {
        self.to().null()
    }
    fn boolean(&mut self, b: bool) -> R<()> {
        self.to().boolean(b)
    }
    fn string(&mut self, s: &str) -> R<()> {
        self.to().string(s)
    }
    fn negative(&mut self, n: i64) -> R<()> {
        self.to().negative(n)
    }
    fn nonnegative(&mut self, n: u64) -> R<()> {
        self.to().nonnegative(n)
    }
    fn float(&mut self, n: f64) -> R<()> {
        self.to().float(n)
    }
    fn seq(&mut self) -> R<Box<dyn Seq + '_>> {
        Ok(Box::new(FwdSeq(self.to().seq()?)))
    }
    fn map(&mut self) -> R<Box<dyn Map + '_>> {
        Ok(Box::new(FwdMap(self.to().map()?, String::new())))
    }
}
struct FwdSeq<'a>(Box<dyn Seq + 'a>);
impl Seq for FwdSeq<'_> {
    fn element(&mut self) -> R<&mut dyn Visitor> {
        self.0.element()
    }
    fn finish(&mut self) -> R<()> {
        self.0.finish()
    }
}
/// Keeps its own copy of the key and lets the inner builder read that one.
struct FwdMap<'a>(Box<dyn Map + 'a>, String);
impl Map for FwdMap<'_> {
    fn key(&mut self, k: &str) -> R<&mut dyn Visitor> {
        self.1.clear();
        self.1.push_str(k);
        self.0.key(&self.1)
    }
    fn finish(&mut self) -> R<()> {
        self.0.finish()
    }
}
impl<T: Model> Model for Fwd<T> {
    fn accepts(v: &RV) -> Tri {
        T::accepts(v)
    }
    fn is(&self, v: &RV) -> bool {
        self.0.as_ref().map_or(false, |x| x.is(v))
    }
}
/// Content that nobody looks at.
struct Skip;
impl Deserialize for Skip {
    fn begin(out: &mut Option<Self>) -> &mut dyn Visitor {
        *out = Some(Skip);
        <dyn Visitor>::ignore()
    }
}
impl Model for Skip {
    fn accepts(v: &RV) -> Tri {
        mc_zoo::skip_accepts(v)
    }
    fn is(&self, _: &RV) -> bool {
        true
    }
}

struct Ty {
    name: &'static str,
    play: Play,
    parsed: fn(&Doc) -> Result<(), String>,
}
macro_rules! zoo { ($($t:ty),* $(,)?) => { vec![$(Ty { name: stringify!($t), play: play::<$t>, parsed: parsed::<$t> }),*] } }
type M<T> = BTreeMap<String, T>;
type H<T> = HashMap<String, T>;

fn types() -> Vec<Ty> {
    zoo![
        (), bool, String, u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, f32, f64, Number, Value, Array, Object, Skip,
        Option<()>, Option<bool>, Option<String>, Option<u8>, Option<f64>, Option<Value>, Option<Vec<u8>>, Option<[u8; 2]>, Option<(u8, u8)>,
        Option<Option<u8>>, Option<Option<Vec<u8>>>, Option<Box<u8>>, Option<Array>, Option<Object>, Option<M<u8>>, Option<H<u8>>, Option<Skip>,
        Box<()>, Box<bool>, Box<String>, Box<i8>, Box<f32>, Box<Value>, Box<Array>, Box<Object>, Box<Number>, Box<Vec<u8>>, Box<[u8; 2]>, Box<(u8, String)>, Box<Skip>,
        Box<Option<u8>>, Box<Option<Vec<u8>>>, Box<Box<u8>>, Box<Box<Vec<Box<u8>>>>, Box<M<u8>>, Box<H<Box<Value>>>, Option<Box<Option<Vec<Option<u8>>>>>,
        (u8, u8), (u8, String), (Option<u8>, Option<String>), (Value, Value), ((u8, u8), (u8, u8)), (Vec<u8>, [u8; 1]), ((), ()), (Box<u8>, Box<Value>), (Skip, Skip),
        [(); 0], [(); 2], [u8; 0], [u8; 1], [u8; 2], [u8; 3], [String; 1], [String; 2], [Option<u8>; 2], [Value; 1], [Value; 2], [[u8; 1]; 1], [[String; 1]; 2], [(Value, Value); 1], [Vec<u8>; 2], [Box<u8>; 2], [Skip; 2],
        Vec<()>, Vec<bool>, Vec<String>, Vec<u8>, Vec<i64>, Vec<f64>, Vec<Value>, Vec<Option<u8>>, Vec<Option<Value>>, Vec<Vec<u8>>, Vec<Vec<Value>>, Vec<[u8; 1]>, Vec<(u8, u8)>, Vec<Box<Value>>, Vec<Array>, Vec<Object>, Vec<M<u8>>, Vec<Skip>,
        M<u8>, M<String>, M<Value>, M<Option<u8>>, M<Vec<u8>>, M<[u8; 1]>, M<M<Value>>, M<Skip>, H<u8>, H<Value>, H<Option<Box<u8>>>, H<Vec<String>>, BTreeMap<u8, String>, HashMap<u8, String>, BTreeMap<bool, u8>, HashMap<char, u8>,
        Fwd<()>, Fwd<bool>, Fwd<String>, Fwd<u8>, Fwd<i64>, Fwd<f64>, Fwd<f32>, Fwd<Number>, Fwd<Value>, Fwd<Array>, Fwd<Object>, Fwd<Option<u8>>, Fwd<Option<Vec<u8>>>, Fwd<Box<u8>>, Fwd<Box<Vec<Value>>>, Fwd<Box<[String; 2]>>, Fwd<Vec<u8>>, Fwd<Vec<Value>>,
        Fwd<[u8; 2]>, Fwd<[Value; 1]>, Fwd<(u8, u8)>, Fwd<(Value, Value)>, Fwd<M<u8>>, Fwd<M<Value>>, Fwd<H<Vec<u8>>>, Fwd<Fwd<Box<Fwd<Value>>>>, Fwd<Skip>,
        Vec<Fwd<Value>>, Vec<Fwd<Vec<Fwd<u8>>>>, Option<Fwd<Value>>, Option<Fwd<Vec<u8>>>, Box<Fwd<Option<Vec<Value>>>>, M<Fwd<Option<u8>>>, H<Fwd<Box<Value>>>, [Fwd<String>; 2], (Fwd<Value>, Fwd<Vec<u8>>),
    ]
}

struct Derived {
    ty: Ty,
    nested: Vec<Ty>,
    made: Vec<RV>,
}
fn derived<T: Def + Make + Deserialize + miniserde::Serialize>(name: &'static str) -> Derived {
    let mut made: Vec<RV> = Vec::new();
    let mut c = Chooser::new(1);
    while !c.done && made.len() < 40 {
        made.push(T::make(&mut c).written());
        c.next();
    }
    Derived {
        ty: Ty { name, play: play::<T>, parsed: parsed::<T> },
        nested: vec![
            Ty { name: "Fwd", play: play::<Fwd<T>>, parsed: parsed::<Fwd<T>> },
            Ty { name: "Option", play: play::<Option<T>>, parsed: parsed::<Option<T>> },
            Ty { name: "Box", play: play::<Box<T>>, parsed: parsed::<Box<T>> },
        ],
        made,
    }
}
macro_rules! list { ($([$t:ty])*) => { vec![$(derived::<$t>(stringify!($t))),*] } }

fn num(s: &str) -> RV {
    RV::Num(s.into())
}
fn st(s: &str) -> RV {
    RV::Str(s.into())
}

fn case(ctx: &mut Ctx, fam: &'static str, ty: &Ty, outer: &str, steps: &[Step]) {
    let mut name = format!("{}{}", ty.name, outer);
    for (d, s) in steps {
        name.push_str(&if *s == ALL { format!(" | {}", d.text) } else { format!(" | {} calls of {}", s, d.text) });
    }
    if name.len() > 300 {
        let mut at = 300;
        while !name.is_char_boundary(at) {
            at -= 1;
        }
        let h = name.bytes().fold(7u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
        name.truncate(at);
        name.push_str(&format!("... #{:x}", h));
    }
    if ctx.go(fam, name.as_bytes()) {
        match (ty.play)(steps) {
            Ok(true) => ctx.nontrivial(),
            Ok(false) => {}
            Err(e) => ctx.fail(e),
        }
    }
}

/// Doubles that no document denotes, which a driver for another format may have.
fn odd_doubles(ctx: &mut Ctx) {
    fn into<T: Deserialize>(d: &D) -> Option<T> {
        let mut place = None;
        drive(T::begin(&mut place), d, &mut { ALL }).ok()?;
        place
    }
    let odd = [f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, -0.0, 5e-324, -2.5e-310, 3.5e38, -3.4028235677973366e38, 1e-46];
    for x in odd {
        let f = || D::Float(x);
        let seq = || D::Seq(vec![f(), D::Null, f()]);
        let map = || D::Map(vec![("a".into(), f()), ("b".into(), f())]);
        let is = |y: Option<f64>| y.is_some_and(|y| y.to_bits() == x.to_bits());
        let is32 = |y: Option<f32>| y.is_some_and(|y| y.to_bits() == (x as f32).to_bits() || y.is_nan() && x.is_nan());
        let isn = |n: &Number| matches!(n, Number::F64(y) if y.to_bits() == x.to_bits());
        let isv = |v: &Value| matches!(v, Value::Number(n) if isn(n));
        let mut one = |name: &str, test: &dyn Fn() -> bool| {
            if ctx.go("odd doubles", format!("{} {:?} {:x}", name, x, x.to_bits()).as_bytes()) {
                let m = mark();
                let ok = test();
                if !ok {
                    ctx.fail(format!("{:?} is not taken as what it is", x));
                } else if mark() != m {
                    ctx.fail(format!("{} blocks more than before", mark().blocks - m.blocks));
                }
                ctx.nontrivial();
            }
        };
        one("f64", &|| is(into::<f64>(&f())));
        one("f32", &|| is32(into::<f32>(&f())));
        one("Number", &|| into::<Number>(&f()).is_some_and(|n| isn(&n)));
        one("Value", &|| into::<Value>(&f()).is_some_and(|v| isv(&v)));
        one("Option", &|| is(into::<Option<f64>>(&f()).flatten()));
        one("Box", &|| is(into::<Box<f64>>(&f()).map(|x| *x)));
        one("forwarded", &|| into::<Fwd<Box<Fwd<f64>>>>(&f()).is_some_and(|x| x.0.as_ref().is_some_and(|b| is(b.0))));
        one("Array", &|| into::<Array>(&seq()).is_some_and(|a| a.len() == 3 && isv(&a[0]) && isv(&a[2])));
        one("Object", &|| into::<Object>(&map()).is_some_and(|a| a.len() == 2 && isv(&a["a"]) && isv(&a["b"])));
        one("Vec", &|| into::<Vec<Option<f32>>>(&seq()).is_some_and(|a| a.len() == 3 && is32(a[0]) && a[1].is_none() && is32(a[2])));
        one("map", &|| into::<BTreeMap<String, f64>>(&map()).is_some_and(|a| a.len() == 2 && is(Some(a["a"])) && is(Some(a["b"]))));
        one("hash map", &|| into::<HashMap<String, f32>>(&map()).is_some_and(|a| a.len() == 2 && is32(Some(a["a"]))));
        one("pair", &|| into::<(f64, Value)>(&D::Seq(vec![f(), f()])).is_some_and(|(a, b)| is(Some(a)) && isv(&b)));
        one("array", &|| into::<[f64; 2]>(&D::Seq(vec![f(), f()])).is_some_and(|[a, b]| is(Some(a)) && is(Some(b))));
        one("ignored", &|| into::<Skip>(&f()).is_some());
        one("ignored in an array", &|| into::<Vec<Skip>>(&seq()).is_some());
        one("ignored array", &|| into::<Skip>(&seq()).is_some());
        one("ignored object", &|| into::<Skip>(&map()).is_some());
        one("ignored below", &|| into::<Skip>(&D::Map(vec![("k".into(), D::Seq(vec![map(), seq(), f()])), ("k".into(), f())])).is_some());
        one("integer", &|| into::<u64>(&f()).is_none() && into::<i8>(&f()).is_none() && into::<String>(&f()).is_none());
    }
}

fn body(ctx: &mut Ctx) {
    let tys = types();
    let docs = |n: usize, sc: &[RV], ks: &[&str]| -> Vec<Doc> { trees(n, sc, ks).into_iter().map(doc).collect() };
    let some = [RV::Null, num("1"), st("s"), RV::Bool(true), num("-2"), num("0.5")];
    let many = [RV::Null, num("0"), num("1"), st(""), st("1"), st("é\n"), RV::Bool(true), RV::Bool(false), num("-1"), num("-129"), num("255"), num("256"), num("70000"), num("9223372036854775808"), num("18446744073709551615"), num("-9223372036854775808"), num("1.0"), num("-0.25"), num("1e-320"), num("1.5e300")];
    // One drive, any document.
    for (n, sc, ks) in [(ctx.pick(3, 4), &many[..], &["a", "1"][..]), (ctx.pick(5, 6), &some[..4], &["a"]), (ctx.pick(6, 7), &some[..2], &["1"])] {
        for d in docs(n, sc, ks) {
            if !ctx.mine() {
                continue;
            }
            if ctx.go("one drive", d.text.as_bytes()) {
                let mut any = false;
                for t in &tys {
                    match (t.play)(&[(&d, ALL)]).and_then(|a| (t.parsed)(&d).map(|_| a)) {
                        Ok(a) => any |= a,
                        Err(e) => ctx.fail(format!("{}: {}", t.name, e)),
                    }
                }
                if any {
                    ctx.nontrivial();
                }
            }
        }
    }
    if ctx.mine() {
        odd_doubles(ctx);
    }
    // Two drives of one place, the first given up anywhere or complete.
    let small = docs(ctx.pick(3, 4), &[num("1"), RV::Null, st("s")], &["1"]);
    let tiny = docs(2, &some[..4], &["1", "x"]);
    for (pairs, second) in [(&small, &small), (&tiny, &tiny)] {
        for a in pairs.iter() {
            if !ctx.mine() {
                continue;
            }
            for stop in (0..a.calls).chain([ALL]) {
                for b in second.iter() {
                    for t in &tys {
                        case(ctx, "two drives", t, "", &[(a, stop), (b, ALL)]);
                    }
                }
            }
        }
    }
    // Three.
    let three = docs(ctx.pick(2, 3), &[num("1"), RV::Null], &["1"]);
    for a in &three {
        for b in &three {
            if !ctx.mine() {
                continue;
            }
            for sa in (1..a.calls).chain([ALL]) {
                for sb in (1..b.calls).chain([ALL]) {
                    for c in &three {
                        for t in &tys {
                            case(ctx, "three drives", t, "", &[(a, sa), (b, sb), (c, ALL)]);
                        }
                    }
                }
            }
        }
    }
    // Sizes.
    let big = zoo![Vec<u8>, Vec<String>, Vec<Value>, Value, Array, Object, M<u8>, H<u8>, M<Value>, BTreeMap<u32, u8>, HashMap<u32, Box<u8>>, Option<Vec<u8>>, Box<Vec<Option<u8>>>, Fwd<Vec<u8>>, Fwd<M<u8>>, [u8; 5], [String; 300], Vec<Skip>, Skip, Vec<Vec<u8>>, Vec<()>, [u8; 0]];
    for n in lengths(ctx.pick(40, 200), ctx.pick(4096, 65536)) {
        if !ctx.mine() {
            continue;
        }
        let one = |i: usize, k: usize| match k {
            0 => num(&(i % 200).to_string()),
            1 => st(&format!("s{}", i)),
            _ => RV::Arr(vec![num("7")]),
        };
        let mut ds: Vec<Doc> = (0..3).map(|k| doc(RV::Arr((0..n).map(|i| one(i, k)).collect()))).collect();
        ds.push(doc(RV::Obj((0..n).map(|i| (i.to_string(), one(i, 0))).collect())));
        ds.push(doc(RV::Obj((0..n).map(|i| ((i % 50).to_string(), one(i, 0))).collect())));
        if n > 0 {
            // The last element is another kind.
            let RV::Arr(mut a) = ds[0].v.clone() else { unreachable!() };
            a[n - 1] = RV::Bool(true);
            ds.push(doc(RV::Arr(a)));
        }
        let short = [doc(RV::Arr(vec![])), doc(RV::Arr(vec![num("3"), num("4")])), doc(RV::Obj(vec![])), doc(RV::Obj(vec![("9".into(), num("8"))]))];
        for t in &big {
            for a in &ds {
                if a.v.text().len() > 200_000 && t.name == "[String ; 300]" {
                    continue;
                }
                case(ctx, "sizes", t, &format!(" {}", n), &[(a, ALL)]);
                for b in &short {
                    case(ctx, "sizes", t, &format!(" {}", n), &[(a, ALL), (b, ALL), (a, ALL)]);
                    case(ctx, "sizes", t, &format!(" {}", n), &[(a, a.calls - 1), (b, ALL)]);
                    case(ctx, "sizes", t, &format!(" {}", n), &[(a, a.calls / 2), (b, ALL), (a, ALL)]);
                }
            }
        }
    }
    // Derived definitions.
    let mut ds: Vec<Derived> = mc_derives::structs!(list);
    ds.extend({
        let e: Vec<Derived> = mc_derives::enums!(list);
        e
    });
    for d in &ds {
        let mut docs: Vec<Doc> = Vec::new();
        let full = d.made[0].clone();
        for m in d.made.iter().take(ctx.pick(5, 12)) {
            docs.push(doc(m.clone()));
        }
        let large = matches!(&full, RV::Obj(o) if o.len() > 20);
        if let RV::Obj(o) = &full {
            let mut less = o.clone();
            less.pop();
            docs.push(doc(RV::Obj(less)));
            let mut more = o.clone();
            more.insert(o.len() / 2, ("zz".into(), RV::Arr(vec![RV::Obj(vec![("a".into(), RV::Null)])])));
            docs.push(doc(RV::Obj(more)));
            let mut back = o.clone();
            back.reverse();
            docs.push(doc(RV::Obj(back)));
            let mut twice = o.clone();
            twice.extend(d.made.last().and_then(|m| if let RV::Obj(o) = m { o.first().cloned() } else { None }));
            docs.push(doc(RV::Obj(twice)));
            docs.push(doc(RV::Obj(vec![])));
        }
        if let RV::Str(s) = &full {
            docs.push(doc(st(&format!("{}x", s))));
        }
        docs.extend([RV::Null, RV::Arr(vec![]), num("1"), st("s")].map(doc));
        for a in &docs {
            if !ctx.mine() {
                continue;
            }
            for (t, o) in std::iter::once((&d.ty, "")).chain(d.nested.iter().map(|t| (t, d.ty.name))) {
                let name = format!("{}{} {}", t.name, o, a.text.chars().take(150).collect::<String>());
                if ctx.go("derived, parsed", name.as_bytes()) {
                    match (t.parsed)(a) {
                        Ok(()) => ctx.nontrivial(),
                        Err(e) => ctx.fail(e),
                    }
                }
                case(ctx, "derived", t, o, &[(a, ALL)]);
                let stops: Vec<usize> = if large { vec![1, a.calls / 2, a.calls.saturating_sub(1), ALL] } else { (0..a.calls).chain([ALL]).collect() };
                for stop in stops {
                    for b in docs.iter().take(if large { 3 } else { 100 }) {
                        case(ctx, "derived", t, o, &[(a, stop), (b, ALL)]);
                    }
                }
            }
        }
    }
}

fn main() {
    run::main(
        Spec {
            property: "C22",
            level: "exploration",
            rule: "the visitor of each type is driven by hand with the callbacks a value dictates, without a parser: into a fresh place, and into one that already went through other drives, complete, refused or given up before each call; after a complete drive the place must hold the value the reference model dictates, otherwise a callback must have failed; types that forward every call to another type's visitor must behave like it, by hand and through from_str; the checked allocator must balance",
            assumptions: &["reference model of the types"],
            stall: 60,
            mem_mb: 8192,
            bounds: "about 165 types (30 of them forwarding) x all trees to 3 (4) nodes over 20 scalars, 5 (6) over 4, 6 (7) over 2; all pairs of trees of up to 3 (4) nodes with every stop, triples of up to 2 (3); sizes to 4096 (65536); 96 derived definitions alone and inside three types",
        },
        body,
    )
}
