//! C24: numbers, values and errors print exactly what they are, into any sink.

use mc_core::alloc::{mark, Checked};
use mc_core::gen::{lengths, trees, words};
use mc_core::run::{self, Ctx, Spec};
use mc_core::rv::{read_ok, RV};
use mc_zoo::says::Says;
use mc_zoo::{to_value, vals};
use miniserde::json::{self, Number, Value};
use std::fmt::{self, Debug, Display, Write};

#[global_allocator]
static A: Checked = Checked;

/// Accepts so many bytes and so many writes, then fails once (or for good).
struct Sink {
    text: String,
    bytes: usize,
    writes: usize,
    calls: usize,
    failed: bool,
    after: usize,
}
impl Sink {
    fn new(bytes: usize, writes: usize) -> Self {
        Sink { text: String::with_capacity(4096), bytes, writes, calls: 0, failed: false, after: 0 }
    }
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.failed {
            self.after += 1;
            return Ok(());
        }
        self.calls += 1;
        if self.calls > self.writes || self.text.len() + s.len() > self.bytes {
            self.failed = true;
            return Err(fmt::Error);
        }
        self.text.push_str(s);
        Ok(())
    }
}

/// Prints `x` in one of the ways into sinks that fail everywhere.
fn sinks(ctx: &mut Ctx, print: &dyn Fn(&mut Sink) -> fmt::Result) -> Result<String, String> {
    let mut full = Sink::new(usize::MAX, usize::MAX);
    print(&mut full).map_err(|_| "printing fails although the sink does not".to_string())?;
    let (text, calls) = (full.text.clone(), full.calls);
    if full.failed {
        return Err("failed".into());
    }
    drop(full);
    let mut n = 0;
    for k in 0..=text.len().max(calls) {
        for by_bytes in [true, false] {
            if k > if by_bytes { text.len() } else { calls } {
                continue;
            }
            let m = mark();
            let mut s = if by_bytes { Sink::new(k, usize::MAX) } else { Sink::new(usize::MAX, k) };
            let r = print(&mut s);
            n += 1;
            let whole = if by_bytes { k >= text.len() } else { k >= calls };
            if r.is_ok() != whole || s.failed == whole {
                return Err(format!("a sink that takes {} {}: {:?}", k, if by_bytes { "bytes" } else { "writes" }, r));
            }
            if !text.starts_with(&s.text) || (whole && s.text != text) {
                return Err(format!("a sink that takes {}: printed {:?} instead of {:?}", k, s.text, text));
            }
            if s.after > 0 {
                return Err(format!("a sink that takes {}: {} writes after the failure", k, s.after));
            }
            drop(s);
            if mark() != m {
                return Err("leak after a failure".into());
            }
        }
    }
    ctx.add("sinks", n);
    Ok(text)
}

fn shown(n: &Number) -> Result<(), String> {
    let t = n.to_string();
    let good = match n {
        Number::U64(x) => t == x.to_string(),
        Number::I64(x) => t == x.to_string(),
        Number::F64(x) if x.is_finite() => t.parse::<f64>().map_or(false, |y| y.to_bits() == x.to_bits()) && matches!(read_ok(&t), Some(v) if x.says(&v)),
        Number::F64(x) => t.parse::<f64>().map_or(false, |y| y.to_bits() == x.to_bits() || (x.is_nan() && y.is_nan())),
    };
    if !good {
        return Err(format!("displayed as {}", t));
    }
    // Inside other text.
    let u = format!("<{}|{}>", n, n);
    if u != format!("<{}|{}>", t, t) {
        return Err(format!("displayed inside other text as {}", u));
    }
    if !matches!(n, Number::F64(x) if !x.is_finite()) {
        let s = json::to_string(n);
        let (Some(a), Some(RV::Num(_))) = (read_ok(&s), read_ok(&t)) else { return Err(format!("{} or {} is no number", s, t)) };
        if !n.says(&a) {
            return Err(format!("serialized as {}", s));
        }
    }
    Ok(())
}
fn number(ctx: &mut Ctx, fam: &'static str, name: &str, n: Number) {
    if ctx.go(fam, name.as_bytes()) {
        match shown(&n) {
            Ok(()) => ctx.nontrivial(),
            Err(e) => ctx.fail(e),
        }
    }
}
fn printed(ctx: &mut Ctx, fam: &'static str, name: &str, x: &dyn Debug) {
    ctx.add("sinks", 0);
    if ctx.go(fam, name.as_bytes()) {
        let a = sinks(ctx, &|s| write!(s, "{:?}", x));
        let b = sinks(ctx, &|s| write!(s, "{:#?}", x));
        match (a, b) {
            (Ok(a), Ok(b)) => {
                // The alternate form differs in layout only.
                ctx.check(content(&a) == content(&b), || format!("printed as {} and as {}", a, b));
                ctx.check(a == format!("{:?}", x) && b == format!("{:#?}", x), || "printed differently the second time".into());
                ctx.nontrivial();
            }
            (Err(e), _) | (_, Err(e)) => ctx.fail(e),
        }
    }
}
/// Text that std's own containers print for the same content.
fn mirror(v: &Value, alt: bool) -> String {
    enum V<'a> {
        Null,
        Bool(bool),
        Number(&'a json::Number),
        String(&'a str),
        Array(Vec<V<'a>>),
        Object(std::collections::BTreeMap<&'a str, V<'a>>),
    }
    impl Debug for V<'_> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            match self {
                V::Null => f.write_str("Null"),
                V::Bool(b) => write!(f, "Bool({})", b),
                V::Number(n) => write!(f, "Number({})", n),
                V::String(s) => write!(f, "String({:?})", s),
                V::Array(a) => {
                    f.write_str("Array ")?;
                    Debug::fmt(a, f)
                }
                V::Object(o) => {
                    f.write_str("Object ")?;
                    Debug::fmt(o, f)
                }
            }
        }
    }
    fn of(v: &Value) -> V<'_> {
        match v {
            Value::Null => V::Null,
            Value::Bool(b) => V::Bool(*b),
            Value::Number(n) => V::Number(n),
            Value::String(s) => V::String(s),
            Value::Array(a) => V::Array(a.iter().map(of).collect()),
            Value::Object(o) => V::Object(o.iter().map(|(k, v)| (k.as_str(), of(v))).collect()),
        }
    }
    if alt {
        format!("{:#?}", of(v))
    } else {
        format!("{:?}", of(v))
    }
}
/// Both texts without white space and trailing commas: layout is not what the property is about.
fn content(s: &str) -> String {
    let mut out = String::new();
    let mut quoted = false;
    let mut esc = false;
    for c in s.chars() {
        if quoted {
            out.push(c);
            if esc {
                esc = false;
            } else if c == '\\' {
                esc = true;
            } else if c == '"' {
                quoted = false;
            }
        } else if c == '"' {
            quoted = true;
            out.push(c);
        } else if !c.is_whitespace() && c != ',' {
            out.push(c);
        }
    }
    out
}
fn value(ctx: &mut Ctx, fam: &'static str, name: &str, v: &Value) {
    if ctx.go(fam, name.as_bytes()) {
        for alt in [false, true] {
            let got = if alt { format!("{:#?}", v) } else { format!("{:?}", v) };
            let want = mirror(v, alt);
            ctx.check(content(&got) == content(&want), || format!("printed as {} and not as {}", got.chars().take(200).collect::<String>(), want.chars().take(200).collect::<String>()));
        }
        ctx.nontrivial();
    }
}

fn body(ctx: &mut Ctx) {
    let part = (ctx.worker, ctx.workers);
    let all = ctx.replaying().is_some();
    for (i, n) in vals::u64s().into_iter().enumerate() {
        if i as u64 % part.1 == part.0 || all {
            number(ctx, "unsigned", &n.to_string(), Number::U64(n));
            if n <= 1 << 53 {
                number(ctx, "whole doubles", &n.to_string(), Number::F64(n as f64));
            }
        }
    }
    for (i, n) in vals::i64s().into_iter().enumerate() {
        if i as u64 % part.1 == part.0 || all {
            number(ctx, "signed", &n.to_string(), Number::I64(n));
        }
    }
    vals::f64s(!ctx.quick(), if all { (0, 1) } else { part }, &mut |x| number(ctx, "doubles", &format!("{:016x}", x.to_bits()), Number::F64(x)));
    for x in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -f64::NAN] {
        if ctx.mine() {
            number(ctx, "not finite", &format!("{:?}", x.to_bits()), Number::F64(x));
        }
    }
    // Failing sinks: numbers.
    let some: Vec<Number> = vals::u64s().into_iter().step_by(ctx.pick(37, 5)).map(Number::U64).chain(vals::i64s().into_iter().step_by(ctx.pick(37, 5)).map(Number::I64)).chain([0.0, -0.0, 1.5, 1e300, -1e-300, f64::NAN, f64::INFINITY, 5e-324, 123456789.125].map(Number::F64)).collect();
    for n in some {
        if ctx.mine() && ctx.go("sinks of numbers", format!("{:?}", n).as_bytes()) {
            match sinks(ctx, &|s| write!(s, "{}", n)) {
                Ok(t) => ctx.check(t == n.to_string(), || format!("written as {}", t)),
                Err(e) => ctx.fail(e),
            }
            if let Err(e) = sinks(ctx, &|s| write!(s, "{:?}", n)) {
                ctx.fail(e);
            }
            ctx.nontrivial();
        }
    }
    // Values.
    let sc = [RV::Null, RV::Num("1".into()), RV::Str("é, \"\n".into()), RV::Num("-2.5".into()), RV::Bool(true), RV::Num("-3".into())];
    for (n, sc, ks) in [(ctx.pick(4, 5), &sc[..], &["a", "\"{},"][..]), (ctx.pick(6, 7), &sc[..1], &["k"])] {
        for t in trees(n, sc, ks) {
            if !ctx.mine() {
                continue;
            }
            let v = to_value(&t);
            value(ctx, "values", &t.text(), &v);
            if t.nodes() <= 3 || !ctx.quick() {
                printed(ctx, "sinks of values", &t.text(), &v);
                match &v {
                    Value::Array(a) => printed(ctx, "sinks of values", &format!("Array {}", t.text()), a),
                    Value::Object(o) => printed(ctx, "sinks of values", &format!("Object {}", t.text()), o),
                    _ => {}
                }
            }
        }
    }
    for len in 0..=ctx.pick(3, 4) {
        words(len, vals::CLASSES.len(), &mut |w| {
            if ctx.mine() {
                let s: String = w.iter().map(|i| vals::CLASSES[*i]).collect();
                let name = format!("{:?}", s);
                value(ctx, "texts", &name, &Value::String(s.clone()));
                value(ctx, "texts", &format!("key {}", name), &Value::Object([(s, Value::Null)].into_iter().collect()));
            }
        });
    }
    for n in lengths(ctx.pick(100, 400), ctx.pick(4096, 1 << 17)) {
        if ctx.mine() {
            value(ctx, "sizes", &format!("array {}", n), &Value::Array((0..n).map(|i| Value::Number(Number::U64(i as u64))).collect()));
            value(ctx, "sizes", &format!("object {}", n), &Value::Object((0..n).map(|i| (format!("{:x}", i), Value::Bool(i % 2 == 0))).collect()));
            value(ctx, "sizes", &format!("string {}", n), &Value::String((0..n).map(|i| if i % 61 == 7 { '"' } else { 'x' }).collect()));
            if n <= 300 {
                let mut v = Value::Null;
                for i in 0..n {
                    v = if i % 2 == 0 { Value::Array([v].into_iter().collect()) } else { Value::Object([("k".to_string(), v)].into_iter().collect()) };
                }
                value(ctx, "sizes", &format!("deep {}", n), &v);
            }
        }
    }
    // The error.
    if ctx.mine() && ctx.go("error", b"miniserde::Error") {
        let e = json::from_str::<u8>("").unwrap_err();
        let f = e;
        let text = e.to_string();
        ctx.check(!text.trim().is_empty(), || "the error displays as nothing".into());
        ctx.check(f.to_string() == text && miniserde::Error.to_string() == text, || "copies of the error display differently".into());
        ctx.check(!format!("{:?}", e).trim().is_empty(), || "the error prints as nothing".into());
        for r in [sinks(ctx, &|s| write!(s, "{}", f)), sinks(ctx, &|s| write!(s, "{:?}", f))] {
            if let Err(m) = r {
                ctx.fail(m);
            }
        }
        let b: Box<dyn std::error::Error + Send + Sync> = Box::new(e);
        ctx.check(b.to_string() == text && b.source().is_none(), || "boxed, the error displays differently".into());
        fn display(_: &(dyn Display + Send + Sync + 'static)) {}
        display(&e);
        ctx.nontrivial();
    }
}

fn main() {
    run::main(
        Spec {
            property: "C24",
            level: "fault_enumeration",
            rule: "every number is displayed and read back; every small value is Debug-printed and compared with what std's containers print for the same content; and numbers, values and the error are printed into sinks that fail after every number of bytes and after every number of writes: the failure must be reported, what was written before must be a prefix, nothing may be written afterwards and nothing leak",
            assumptions: &["std's formatting of integers, strings, lists and maps, and its float parser"],
            stall: 60,
            mem_mb: 4096,
            bounds: "structured integers and doubles as in C09; all trees of up to 4 (5) nodes over 6 scalars, 6 (7) over one, sinks for up to 3 nodes (all); all strings of up to 3 (4) of 24 character classes; sizes to 4096 (131072)",
        },
        body,
    )
}
