//! C07: derived serialization writes every field and variant under its name.

use mc_core::run::{self, Ctx, Spec};
use mc_core::rv::{read_ok, RV};
use mc_derives::*;
use mc_zoo::{own, parse, Field};
use miniserde::{json, Deserialize, Serialize};
use std::borrow::Cow;
use std::collections::BTreeMap;

/// Why the text is not what the definition dictates.
fn wrong(text: &str, want: &RV) -> Option<String> {
    match read_ok(text) {
        None => Some(format!("serialized to invalid JSON: {}", text)),
        Some(got) if got != *want => Some(format!("serialized to {} instead of {}", text, want.text())),
        _ => None,
    }
}

struct Out {
    err: Option<String>,
    text: String,
}

/// Every way a derived type can sit inside another one.
fn inside<T: Def + Make + Serialize>(make: &mut dyn FnMut() -> T) -> Option<String> {
    let w = make().written();
    macro_rules! is {
        ($what:literal, $x:expr, $want:expr) => {
            if let Some(m) = wrong(&json::to_string(&$x), &$want) {
                return Some(format!("inside {}: {}", $what, m));
            }
        };
    }
    let a = |n: usize| RV::Arr(vec![w.clone(); n]);
    let o = |ks: &[&str]| RV::Obj(ks.iter().map(|k| (k.to_string(), w.clone())).collect());
    is!("&T", &&make(), w);
    is!("Box", Box::new(make()), w);
    is!("Some", Some(make()), w);
    is!("None", None::<T>, RV::Null);
    is!("Vec", vec![make(), make(), make()], a(3));
    is!("slice", &[make()][..], a(1));
    is!("array", [make(), make()], a(2));
    is!("pair", (make(), make()), a(2));
    is!("map", BTreeMap::from([("p", make()), ("q", make())]), o(&["p", "q"]));
    is!("generic struct", G1 { t: make() }, o(&["t"]));
    is!("dyn", &make() as &dyn Serialize, w);
    is!("Box<dyn>", Box::new(make()) as Box<dyn Serialize>, w);
    let x = make();
    is!("borrowing struct", Lent { t: &x, ts: std::slice::from_ref(&x), d: &x, o: Some(&x) }, RV::Obj(vec![("t".into(), w.clone()), ("ts".into(), a(1)), ("d".into(), w.clone()), ("o".into(), w.clone())]));
    None
}

fn step<T: Model + Def + Make + Serialize + Deserialize>(c: &mut Chooser, check: bool) -> Out {
    let v = T::make(c);
    if !check {
        c.next();
        return Out { err: None, text: String::new() };
    }
    let text = json::to_string(&v);
    let want = v.written();
    let mut err = wrong(&text, &want);
    if err.is_none() {
        // The field list fixes the order and the number of entries.
        if let (Some(fs), RV::Obj(o)) = (T::fields(), &want) {
            assert!(fs.len() == o.len() && fs.iter().zip(o).all(|(f, e)| f.key == e.0));
        }
        if json::to_string(&v) != text {
            err = Some("serializing again gives another text".into());
        }
    }
    if err.is_none() {
        err = match parse::<T>(&text) {
            Err(_) => Some(format!("{} does not parse back", text)),
            Ok(b) if !b.is(&want) => Some(format!("{} parses back as another value", text)),
            Ok(b) => wrong(&json::to_string(&b), &want).filter(|_| !has_float(&want)).map(|m| format!("after a round trip: {}", m)),
        };
    }
    if err.is_none() {
        let mut make = || {
            let mut d = c.again();
            T::make(&mut d)
        };
        err = inside::<T>(&mut make);
    }
    c.next();
    Out { err, text }
}
fn has_float(v: &RV) -> bool {
    v.any_num(&mut |l| l.contains(['.', 'e', 'E']))
}

struct Entry {
    name: &'static str,
    step: fn(&mut Chooser, bool) -> Out,
    fields: Option<Vec<Field>>,
}
fn entry<T: Model + Def + Make + Serialize + Deserialize>(name: &'static str) -> Entry {
    Entry { name, step: step::<T>, fields: T::fields() }
}
macro_rules! list { ($([$t:ty])*) => { vec![$(entry::<$t>(stringify!($t))),*] } }

// Definitions that can only be serialized.
#[derive(Serialize)]
struct Lent<'a, T> {
    t: &'a T,
    ts: &'a [T],
    d: &'a dyn Serialize,
    o: Option<&'a T>,
}
#[derive(Serialize)]
struct Texts<'a, 'b: 'a> {
    s: &'a str,
    c: Cow<'b, str>,
    o: Option<&'a str>,
    b: Box<str>,
    #[serde(rename = "list of texts")]
    l: &'a [&'b str],
    m: BTreeMap<&'b str, &'a str>,
    r#static: &'static str,
    mm: &'a mut_free::Ref<'b>,
}
mod mut_free {
    use super::*;
    #[derive(Serialize)]
    pub struct Ref<'x> {
        pub x: &'x str,
    }
}
#[derive(Serialize)]
struct Dyns<'a> {
    a: &'a dyn Serialize,
    b: Box<dyn Serialize + 'a>,
    c: Vec<&'a dyn Serialize>,
    d: [Box<dyn Serialize + 'a>; 2],
    e: (&'a dyn Serialize, Option<Box<dyn Serialize + 'a>>),
    f: Cow<'a, [u8]>,
}
#[derive(Serialize)]
struct Phantom<'a, T: ?Sized + 'a, const N: usize>
where
    T: ToOwned,
{
    t: &'a T,
    n: [u8; N],
}
#[derive(Serialize)]
struct Tail<T: ?Sized> {
    n: u8,
    t: Box<T>,
}

fn st(s: &str) -> RV {
    RV::Str(s.into())
}

const TEXTS: [&str; 7] = ["s", "", "a\"b\\c/\n\u{0}\u{7f}", "é😀\u{2028}\u{ffff}", "}{][,:", "null", "\u{1f}\u{8}\u{c}\r\t"];

fn lent(ctx: &mut Ctx) {
    let texts: Vec<&str> = TEXTS[..ctx.pick(5, 7)].to_vec();
    let mut c = Chooser::new(ctx.pick(4, 6));
    while !c.done {
        let s = *c.pick(&texts);
        let cow = match c.choose(2) {
            0 => Cow::Borrowed(*c.pick(&texts)),
            _ => Cow::Owned(c.pick(&texts).to_string()),
        };
        let o = match c.choose(2) {
            0 => Some(*c.pick(&texts)),
            _ => None,
        };
        let b = *c.pick(&texts);
        let n = *c.pick(&[1, 0, 2, 3]);
        let l: Vec<&str> = (0..n).map(|_| *c.pick(&texts)).collect();
        let n = *c.pick(&[1, 0, 2]);
        let m: BTreeMap<&str, &str> = (0..n).map(|_| (*c.pick(&texts), *c.pick(&texts))).collect();
        let x = *c.pick(&texts);
        let want = RV::Obj(vec![
            ("s".into(), st(s)),
            ("c".into(), st(&cow)),
            ("o".into(), o.map_or(RV::Null, st)),
            ("b".into(), st(b)),
            ("list of texts".into(), RV::Arr(l.iter().map(|s| st(s)).collect())),
            ("m".into(), RV::Obj(m.iter().map(|(k, v)| (k.to_string(), st(v))).collect())),
            ("static".into(), st(texts[2])),
            ("mm".into(), RV::Obj(vec![("x".into(), st(x))])),
        ]);
        let path = c.path();
        c.next();
        if !ctx.mine() || !ctx.go("borrowed", format!("Texts {}", path).as_bytes()) {
            continue;
        }
        ctx.nontrivial();
        let text = {
            let r = mut_free::Ref { x };
            json::to_string(&Texts { s, c: cow, o, b: b.into(), l: &l, m, r#static: TEXTS[2], mm: &r })
        };
        if let Some(m) = wrong(&text, &want) {
            ctx.fail(m);
        }
    }
    // Trait objects: every short list of kinds.
    let two = Two { a: 1, b: None };
    let list = vec![Two { a: 2, b: Some(3) }];
    let kinds: Vec<(&dyn Serialize, RV)> = vec![
        (&(), RV::Null),
        (&true, RV::Bool(true)),
        (&7u8, RV::Num("7".into())),
        (&-7i8, RV::Num("-7".into())),
        (&"t\n", st("t\n")),
        (&two, two.written()),
        (&list, RV::Arr(vec![list[0].written()])),
        (&Color::Blue, st("Blue")),
        (&W0, RV::Arr(vec![])),
    ];
    let k = kinds.len();
    let mut c = Chooser::new(ctx.pick(4, 6));
    while !c.done {
        let i: Vec<usize> = (0..6).map(|_| c.choose(k)).collect();
        let n = c.choose(4);
        let l: Vec<usize> = (0..n).map(|_| c.choose(k)).collect();
        let e = c.choose(2) == 0;
        let bytes: Vec<u8> = (0..c.choose(3) as u8).collect();
        let path = c.path();
        c.next();
        if !ctx.mine() || !ctx.go("borrowed", format!("Dyns {}", path).as_bytes()) {
            continue;
        }
        ctx.nontrivial();
        let r = |j: usize| kinds[j].1.clone();
        let want = RV::Obj(vec![
            ("a".into(), r(i[0])),
            ("b".into(), r(i[1])),
            ("c".into(), RV::Arr(l.iter().map(|&j| r(j)).collect())),
            ("d".into(), RV::Arr(vec![r(i[2]), r(i[3])])),
            ("e".into(), RV::Arr(vec![r(i[4]), if e { r(i[5]) } else { RV::Null }])),
            ("f".into(), RV::Arr(bytes.iter().map(|b| RV::Num(b.to_string())).collect())),
        ]);
        let b = |j: usize| Box::new(kinds[j].0) as Box<dyn Serialize>;
        let v = Dyns {
            a: kinds[i[0]].0,
            b: b(i[1]),
            c: l.iter().map(|&j| kinds[j].0).collect(),
            d: [b(i[2]), b(i[3])],
            e: (kinds[i[4]].0, if e { Some(b(i[5])) } else { None }),
            f: Cow::Borrowed(&bytes),
        };
        if let Some(m) = wrong(&json::to_string(&v), &want) {
            ctx.fail(m);
        }
    }
    if ctx.mine() && ctx.go("borrowed", b"Phantom") {
        let v = Phantom::<str, 2> { t: "x", n: [1, 2] };
        let want = RV::Obj(vec![("t".into(), st("x")), ("n".into(), RV::Arr(vec![RV::Num("1".into()), RV::Num("2".into())]))]);
        if let Some(m) = wrong(&json::to_string(&v), &want) {
            ctx.fail(m);
        }
        let v = Tail::<[u8]> { n: 1, t: vec![5].into() };
        let want = RV::Obj(vec![("n".into(), RV::Num("1".into())), ("t".into(), RV::Arr(vec![RV::Num("5".into())]))]);
        if let Some(m) = wrong(&json::to_string(&v), &want) {
            ctx.fail(m);
        }
        let v = Tail::<dyn Serialize> { n: 1, t: Box::new(Color::Red) };
        let want = RV::Obj(vec![("n".into(), RV::Num("1".into())), ("t".into(), st("Red"))]);
        if let Some(m) = wrong(&json::to_string(&v), &want) {
            ctx.fail(m);
        }
    }
}
struct W0;
impl Serialize for W0 {
    fn begin(&self) -> miniserde::ser::Fragment<'_> {
        struct E;
        impl miniserde::ser::Seq for E {
            fn next(&mut self) -> Option<&dyn Serialize> {
                None
            }
        }
        miniserde::ser::Fragment::Seq(Box::new(E))
    }
}

fn body(ctx: &mut Ctx) {
    let es: Vec<Entry> = enums!(list);
    let ss: Vec<Entry> = structs!(list);
    ctx.set_max("definitions", (ss.len() + es.len()) as u64);
    for e in es.iter().chain(&ss) {
        let n = e.fields.as_ref().map_or(1, |f| f.len());
        let budget = match n {
            0..=6 => ctx.pick(3, 4),
            7..=12 => ctx.pick(2, 3),
            13..=34 => ctx.pick(2, 3),
            35..=70 => ctx.pick(1, 2),
            _ => 1,
        };
        let mut c = Chooser::new(budget);
        while !c.done {
            let check = ctx.mine() && ctx.go("value", format!("{} {}", e.name, c.path()).as_bytes());
            let o = (e.step)(&mut c, check);
            if check {
                ctx.nontrivial();
                ctx.set_max("longest text", o.text.len() as u64);
                if let Some(m) = o.err {
                    ctx.fail(m);
                }
            }
        }
    }
    lent(ctx);
}

fn main() {
    run::main(
        Spec {
            property: "C07",
            level: "exploration",
            rule: "case = a derived definition and one of its values (given by the choices that built it); the text is read by the reference reader and compared with the entries the definition dictates, parsed back, and serialized inside 13 other types; every case is non-trivial",
            assumptions: &["each field's own serialization is taken from to_string of the field alone (C09 decides whether that is right)"],
            stall: 60,
            mem_mb: 6144,
            bounds: "about 90 definitions of 0..257 fields or variants; all values reachable with at most 3 (4) choices other than the default one for up to 6 fields, fewer for larger ones; borrowing and trait-object fields with all short combinations",
        },
        body,
    );
}
