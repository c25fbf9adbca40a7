//! C12: parsing and serializing use bounded stack at any nesting depth.

use mc_core::alloc::{mark, Checked};
use mc_core::gen::{lengths, words};
use mc_core::run::{self, Ctx, Spec};
use mc_zoo::deep::{self, text, WRAPS};
use miniserde::de::{Map, Seq, Visitor};
use miniserde::json::{from_str, to_string, Value};
use miniserde::ser::{self, Fragment};
use miniserde::{make_place, Deserialize, Result, Serialize};
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};

#[global_allocator]
static A: Checked = Checked;

/// The stack everything under test runs on.
const STACK: usize = 64 << 10;

// Recursive user types. Their own drops are iterative, so that a deep recursion is the library's.
macro_rules! iterative {
    ($t:ident, $s:ident, $st:ident, $take:expr) => {
        impl Drop for $t {
            fn drop(&mut self) {
                let mut $st: Vec<$t> = Vec::new();
                {
                    let $s = self;
                    $take;
                }
                while let Some(mut t) = $st.pop() {
                    let $s = &mut t;
                    $take;
                }
            }
        }
    };
}
#[derive(Serialize, Deserialize)]
struct Opt {
    k: Option<Box<Opt>>,
    v: Option<u8>,
}
iterative!(Opt, s, st, st.extend(s.k.take().map(|b| *b)));
#[derive(Serialize, Deserialize)]
struct List {
    kids: Vec<List>,
}
iterative!(List, s, st, st.append(&mut s.kids));
#[derive(Serialize, Deserialize)]
struct Tree {
    m: BTreeMap<String, Tree>,
}
iterative!(Tree, s, st, st.extend(std::mem::take(&mut s.m).into_values()));
#[derive(Serialize, Deserialize)]
struct Pair {
    p: Option<Box<(Pair, Pair)>>,
}
iterative!(Pair, s, st, if let Some(b) = s.p.take() {
    st.push(b.0);
    st.push(b.1);
});
#[derive(Deserialize)]
struct Arr {
    a: [Option<Box<Arr>>; 2],
}
iterative!(Arr, s, st, st.extend(s.a.iter_mut().filter_map(|x| x.take()).map(|b| *b)));
impl Serialize for Arr {
    fn begin(&self) -> Fragment<'_> {
        struct Once<'a>(Option<&'a Arr>);
        impl ser::Map for Once<'_> {
            fn next(&mut self) -> Option<(Cow<'_, str>, &dyn Serialize)> {
                let a = self.0.take()?;
                Some((Cow::Borrowed("a"), unsafe { &*(a as *const Arr as *const ArrSeq) }))
            }
        }
        #[repr(transparent)]
        struct ArrSeq(Arr);
        impl Serialize for ArrSeq {
            fn begin(&self) -> Fragment<'_> {
                struct It<'a>(std::slice::Iter<'a, Option<Box<Arr>>>);
                impl ser::Seq for It<'_> {
                    fn next(&mut self) -> Option<&dyn Serialize> {
                        self.0.next().map(|x| x as &dyn Serialize)
                    }
                }
                Fragment::Seq(Box::new(It(self.0.a.iter())))
            }
        }
        Fragment::Map(Box::new(Once(Some(self))))
    }
}
#[derive(Serialize, Deserialize)]
struct Hash {
    h: HashMap<u8, Hash>,
}
iterative!(Hash, s, st, st.extend(std::mem::take(&mut s.h).into_values()));
#[derive(Serialize, Deserialize)]
struct BoxVec {
    x: Box<Vec<BoxVec>>,
}
iterative!(BoxVec, s, st, st.append(&mut s.x));
#[derive(Serialize, Deserialize)]
struct Ping {
    a: Option<Box<Pong>>,
}
#[derive(Serialize, Deserialize)]
struct Pong {
    b: Vec<Ping>,
    c: Option<Value>,
}
iterative!(Ping, s, st, if let Some(mut b) = s.a.take() {
    st.append(&mut b.b);
});
#[derive(Serialize, Deserialize)]
struct OptOpt {
    o: Option<Option<Box<OptOpt>>>,
}
iterative!(OptOpt, s, st, if let Some(Some(b)) = s.o.take() {
    st.push(*b)
});
#[derive(Serialize, Deserialize)]
struct WithValue {
    k: Value,
}
/// Ignores everything it holds.
#[derive(Serialize, Deserialize)]
struct Skip {}

make_place!(Place);
/// Hand-written, accepts everything; counts the levels.
struct Any {
    kids: Vec<Any>,
    kind: u8,
}
iterative!(Any, s, st, st.append(&mut s.kids));
impl Deserialize for Any {
    fn begin(out: &mut Option<Self>) -> &mut dyn Visitor {
        Place::new(out)
    }
}
struct AnyBuilder<'a> {
    out: &'a mut Option<Any>,
    kids: Vec<Any>,
    slot: Option<Any>,
    kind: u8,
}
impl Visitor for Place<Any> {
    fn null(&mut self) -> Result<()> {
        self.out = Some(Any { kids: Vec::new(), kind: 0 });
        Ok(())
    }
    fn nonnegative(&mut self, _: u64) -> Result<()> {
        self.null()
    }
    fn string(&mut self, _: &str) -> Result<()> {
        self.null()
    }
    fn seq(&mut self) -> Result<Box<dyn Seq + '_>> {
        Ok(Box::new(AnyBuilder { out: &mut self.out, kids: Vec::new(), slot: None, kind: 1 }))
    }
    fn map(&mut self) -> Result<Box<dyn Map + '_>> {
        Ok(Box::new(AnyBuilder { out: &mut self.out, kids: Vec::new(), slot: None, kind: 2 }))
    }
}
impl AnyBuilder<'_> {
    fn step(&mut self) -> Result<&mut dyn Visitor> {
        self.kids.extend(self.slot.take());
        Ok(Deserialize::begin(&mut self.slot))
    }
    fn end(&mut self) -> Result<()> {
        self.kids.extend(self.slot.take());
        *self.out = Some(Any { kids: std::mem::take(&mut self.kids), kind: self.kind });
        Ok(())
    }
}
impl Seq for AnyBuilder<'_> {
    fn element(&mut self) -> Result<&mut dyn Visitor> {
        self.step()
    }
    fn finish(&mut self) -> Result<()> {
        self.end()
    }
}
impl Map for AnyBuilder<'_> {
    fn key(&mut self, _: &str) -> Result<&mut dyn Visitor> {
        self.step()
    }
    fn finish(&mut self) -> Result<()> {
        self.end()
    }
}
impl Serialize for Any {
    fn begin(&self) -> Fragment<'_> {
        match self.kind {
            0 => Fragment::Null,
            _ => Fragment::Seq(Box::new(AnySeq(self.kids.iter()))),
        }
    }
}
struct AnySeq<'a>(std::slice::Iter<'a, Any>);
impl ser::Seq for AnySeq<'_> {
    fn next(&mut self) -> Option<&dyn Serialize> {
        self.0.next().map(|x| x as &dyn Serialize)
    }
}

/// Levels written as they are asked for; every stream owns the next item.
struct Lazy {
    left: usize,
    object: bool,
}
impl Serialize for Lazy {
    fn begin(&self) -> Fragment<'_> {
        if self.left == 0 {
            return Fragment::U64(7);
        }
        struct S {
            left: usize,
            object: bool,
            cur: Option<Lazy>,
        }
        impl S {
            fn step(&mut self) -> Option<&Lazy> {
                if self.cur.is_some() {
                    return None;
                }
                self.cur = Some(Lazy { left: self.left - 1, object: !self.object });
                self.cur.as_ref()
            }
        }
        impl ser::Seq for S {
            fn next(&mut self) -> Option<&dyn Serialize> {
                self.step().map(|x| x as &dyn Serialize)
            }
        }
        impl ser::Map for S {
            fn next(&mut self) -> Option<(Cow<'_, str>, &dyn Serialize)> {
                self.step().map(|x| (Cow::Borrowed("k"), x as &dyn Serialize))
            }
        }
        let s = S { left: self.left, object: self.object, cur: None };
        if self.object {
            Fragment::Map(Box::new(s))
        } else {
            Fragment::Seq(Box::new(s))
        }
    }
}
#[derive(Serialize)]
struct Link<'a> {
    k: &'a dyn Serialize,
    l: Cow<'a, str>,
}
#[derive(Serialize)]
struct Owned {
    k: Vec<Box<dyn Serialize>>,
}

struct Ty {
    name: &'static str,
    /// (open, close) as parsed.
    wraps: Vec<(&'static str, &'static str)>,
    /// The same as to_string writes them; empty when the text is not compared.
    canon: Vec<(&'static str, &'static str)>,
    core: &'static str,
    bad: &'static [&'static str],
    parse: fn(&str) -> Option<String>,
}
fn through<T: Deserialize + Serialize>(j: &str) -> Option<String> {
    from_str::<T>(j).ok().map(|t| to_string(&t))
}
macro_rules! ty {
    ($t:ty, $core:literal, $bad:expr, [$(($o:literal, $c:literal $(=> $o2:literal, $c2:literal)?)),*]) => {
        Ty {
            name: stringify!($t),
            wraps: vec![$(($o, $c)),*],
            canon: vec![$( { let r = ($o, $c); $(let r = ($o2, $c2);)? r } ),*],
            core: $core,
            bad: $bad,
            parse: through::<$t>,
        }
    };
}
fn types() -> Vec<Ty> {
    let mut v = vec![
        ty!(Opt, "{\"k\":null,\"v\":3}", &["1", "[]", "{\"k\":1}", "{\"v\":300}"], [
            ("{\"k\":", ",\"v\":null}"),
            ("{\"v\":1,\"k\":", "}" => "{\"k\":", ",\"v\":1}"),
            ("{\"x\":[{\"k\":[]}],\"k\":", ",\"z\":{\"k\":{}}}" => "{\"k\":", ",\"v\":null}"),
            ("{\"k\":{\"v\":2},\"k\":", "}" => "{\"k\":", ",\"v\":null}")
        ]),
        ty!(List, "{\"kids\":[]}", &["1", "null", "{}", "{\"kids\":[1]}", "{\"kids\":{}}"], [
            ("{\"kids\":[", "]}"),
            ("{\"kids\":[{\"kids\":[]},", ",{\"kids\":[]}]}"),
            ("{\"n\":0,\"kids\":[", "],\"kids2\":[]}" => "{\"kids\":[", "]}")
        ]),
        ty!(Tree, "{\"m\":{}}", &["1", "[]", "{}", "{\"m\":{\"a\":1}}", "{\"m\":[]}"], [
            ("{\"m\":{\"k\":", "}}"),
            ("{\"m\":{\"a\":{\"m\":{}},\"k\":", "}}"),
            ("{\"m\":{\"k\":{\"m\":{}},\"k\":", ",\"l\":{\"m\":{}}}}" => "{\"m\":{\"k\":", ",\"l\":{\"m\":{}}}}")
        ]),
        ty!(Pair, "{\"p\":null}", &["1", "[]", "{\"p\":[]}", "{\"p\":[{}]}", "{\"p\":[{},{},{}]}"], [
            ("{\"p\":[{\"p\":null},", "]}"),
            ("{\"p\":[", ",{\"p\":null}]}")
        ]),
        ty!(Arr, "{\"a\":[null,null]}", &["1", "[]", "{}", "{\"a\":[null]}", "{\"a\":[null,null,null]}"], [
            ("{\"a\":[", ",null]}"),
            ("{\"a\":[null,", "]}"),
            ("{\"a\":[{\"a\":[null,null]},", "]}")
        ]),
        ty!(Hash, "{\"h\":{}}", &["1", "[]", "{}", "{\"h\":{\"a\":{\"h\":{}}}}", "{\"h\":{\"1\":{}}}"], [
            ("{\"h\":{\"7\":", "}}"),
            ("{\"h\":{\"0\":{\"h\":{}},\"00\":", "}}" => "{\"h\":{\"0\":", "}}")
        ]),
        ty!(BoxVec, "{\"x\":[]}", &["1", "[]", "{}", "{\"x\":[1]}", "{\"x\":{}}"], [
            ("{\"x\":[", "]}"),
            ("{\"x\":[{\"x\":[]},", "]}")
        ]),
        ty!(Ping, "{\"a\":null}", &["1", "[]", "{\"a\":{}}", "{\"a\":{\"b\":[1]}}"], [
            ("{\"a\":{\"b\":[", "],\"c\":null}}"),
            ("{\"a\":{\"b\":[{\"a\":null},", "],\"c\":[[1]]}}"),
            ("{\"a\":{\"c\":{\"q\":[1]},\"b\":[", "]}}" => "{\"a\":{\"b\":[", "],\"c\":{\"q\":[1]}}}")
        ]),
        ty!(OptOpt, "{\"o\":null}", &["1", "[]", "{\"o\":[]}", "{\"o\":{\"o\":1}}"], [
            ("{\"o\":", "}"),
            ("{\"o\":null,\"o\":", "}" => "{\"o\":", "}")
        ]),
    ];
    // Any nesting under a container of the library or a field.
    macro_rules! under {
        ($t:ty, $($o:literal $c:literal),*) => {
            $(v.push(Ty {
                name: concat!(stringify!($t), " ", $o),
                wraps: WRAPS.to_vec(),
                canon: WRAPS.to_vec(),
                core: "7",
                bad: &[],
                parse: |j| {
                    let s = format!("{}{}{}", $o, j, $c);
                    let s = through::<$t>(&s)?;
                    Some(s[$o.len()..s.len() - $c.len()].to_string())
                },
            });)*
        };
    }
    under!(Value, "" "", "[1," ",2]", "{\"a\":[2],\"b\":" "}");
    under!(Vec<Value>, "[" "]", "[[[1]]," ",null]");
    under!(Box<Value>, "" "");
    under!(Option<Value>, "" "");
    under!((Value, u8), "[" ",1]");
    under!(Vec<Box<Option<Value>>>, "[3," "]");
    under!(BTreeMap<String, Value>, "{\"a\":" ",\"b\":[]}");
    under!(HashMap<u8, Value>, "{\"3\":" "}");
    under!([Value; 2], "[[1]," "]", "[" ",{}]");
    under!(WithValue, "{\"k\":" "}");
    under!(Vec<WithValue>, "[{\"k\":" "},{\"k\":[]}]");
    // The replaced one of two entries.
    v.push(Ty {
        name: "Value twice",
        wraps: WRAPS.to_vec(),
        canon: vec![],
        core: "7",
        bad: &[],
        parse: |j| through::<Value>(&format!("{{\"a\":{},\"a\":{}}}", j, j)),
    });
    v.push(Ty {
        name: "WithValue twice",
        wraps: WRAPS.to_vec(),
        canon: vec![],
        core: "7",
        bad: &[],
        parse: |j| through::<WithValue>(&format!("{{\"k\":{},\"k\":{}}}", j, j)),
    });
    v.push(Ty {
        name: "[D, D]",
        wraps: WRAPS.to_vec(),
        canon: vec![],
        core: "7",
        bad: &[],
        parse: |j| through::<(Box<Value>, Option<Value>)>(&format!("[{},{}]", j, j)),
    });
    v.push(Ty { name: "Any", wraps: WRAPS.to_vec(), canon: vec![], core: "7", bad: &["true", "-1", "1.5"], parse: through::<Any> });
    // Skipped content: only Ok or Err.
    macro_rules! skipped {
        ($t:ty, $($o:literal $c:literal),*) => {
            $(v.push(Ty {
                name: concat!("skipped ", $o),
                wraps: WRAPS.to_vec(),
                canon: vec![],
                core: "7",
                bad: &[],
                parse: |j| through::<$t>(&format!("{}{}{}", $o, j, $c)),
            });)*
        };
    }
    skipped!(Skip, "{\"x\":" "}", "{\"x\":1,\"y\":" ",\"z\":[]}");
    skipped!(Vec<Skip>, "[{\"x\":" "},{}]");
    skipped!(Opt, "{\"x\":" ",\"k\":{\"v\":1}}");
    v
}

/// The ways a document is completed or broken; all but the first are errors.
const MODES: usize = 12;
fn broken(t: &deep::Text, core: &str, mode: usize) -> String {
    let (o, c) = (t.opens.as_str(), t.closes.as_str());
    let half = (0..=c.len() / 2).rev().find(|&i| c.is_char_boundary(i)).unwrap();
    match mode {
        0 => format!("{}{}{}", o, core, c),
        1 => o.to_string(),
        2 => format!("{}{}", o, core),
        3 => format!("{}{}{}", o, core, &c[..half]),
        4 => format!("{}{}{}", o, core, &c[..c.len() - 1]),
        5 => format!("{}{}{}]", o, core, c),
        6 => format!("{}{}{} 1", o, core, c),
        7 => format!("{}{}{}{}", o, core, if c.starts_with('}') { "]" } else { "}" }, c),
        8 => format!("{}{}{}\u{1}{}", o, core, &c[..half], &c[half..]),
        9 => format!("{}nul{}", o, c),
        10 => format!("{}\u{1}", &o[..o.len() / 2]),
        _ => format!("{}{},{}", o, core, c),
    }
}

fn parse_case(ctx: &mut Ctx, fam: &'static str, ty: &Ty, word: &[usize], depth: usize, modes: &[usize]) {
    let t = text(&ty.wraps, word, depth);
    for &mode in modes {
        if (mode == 3 || mode == 4 || mode == 8 || mode == 10 || mode == 2) && depth < 2 || mode > 0 && depth == 0 {
            continue;
        }
        if !ctx.go(fam, format!("{} word {:?} depth {} mode {}", ty.name, word, depth, mode).as_bytes()) {
            continue;
        }
        let doc = broken(&t, ty.core, mode);
        let m = mark();
        let r = (ty.parse)(&doc);
        let ok = if mode > 0 {
            r.is_none()
        } else if ty.canon.is_empty() {
            r.is_some()
        } else {
            let c = text(&ty.canon, word, depth);
            r.as_deref() == Some(&broken(&c, ty.core, 0))
        };
        ctx.check(ok, || if mode > 0 { "a broken document is accepted".into() } else { format!("wrong result, {:?} bytes", r.as_ref().map(|s| s.len())) });
        drop(r);
        let n = mark();
        ctx.check(m == n, || format!("{} blocks, {} bytes leaked", n.blocks - m.blocks, n.bytes - m.bytes));
        ctx.nontrivial();
    }
    for (i, bad) in ty.bad.iter().enumerate() {
        if !modes.contains(&4) || !ctx.go(fam, format!("{} word {:?} depth {} core {}", ty.name, word, depth, i).as_bytes()) {
            continue;
        }
        let doc = broken(&t, bad, 0);
        let m = mark();
        let r = (ty.parse)(&doc);
        ctx.check(r.is_none(), || "content of the wrong kind is accepted".into());
        let n = mark();
        ctx.check(m == n, || format!("{} blocks, {} bytes leaked", n.blocks - m.blocks, n.bytes - m.bytes));
        ctx.nontrivial();
    }
    ctx.set_max("depth", depth as u64);
}

fn ser_case(ctx: &mut Ctx, what: &str, depth: usize, want: &dyn Fn() -> String, make: &mut dyn FnMut() -> String) {
    if ctx.go("serializing", format!("{} depth {}", what, depth).as_bytes()) {
        let m = mark();
        let got = make();
        let ok = got == want();
        ctx.check(ok, || format!("wrong text, {} bytes", got.len()));
        drop(got);
        let n = mark();
        ctx.check(m == n, || format!("{} blocks leaked", n.blocks - m.blocks));
        ctx.nontrivial();
        ctx.set_max("depth", depth as u64);
    }
}

fn serializing(ctx: &mut Ctx, depth: usize) {
    for core in [0, 1] {
        let l = |w: &[usize]| {
            let t = text(&WRAPS[..2], w, depth);
            broken(&t, "7", 0)
        };
        let w: &[usize] = if core == 0 { &[0, 1] } else { &[1, 0] };
        ser_case(ctx, &format!("owned by the stream {}", core), depth, &|| l(w), &mut || to_string(&Lazy { left: depth, object: core == 1 }));
    }
    // Borrowed chain.
    ser_case(
        ctx,
        "borrowed links",
        depth,
        &|| format!("{}7{}", "{\"k\":".repeat(depth), ",\"l\":\"x\"}".repeat(depth)),
        &mut || {
            let mut made: Vec<*mut Link> = Vec::new();
            let mut cur: &dyn Serialize = &7u8;
            for _ in 0..depth {
                let b = Box::into_raw(Box::new(Link { k: cur, l: "x".into() }));
                made.push(b);
                cur = unsafe { &*b };
            }
            let s = to_string(cur);
            for b in made {
                drop(unsafe { Box::from_raw(b) });
            }
            s
        },
    );
    ser_case(ctx, "boxed vectors", depth, &|| format!("{}7{}", "{\"k\":[".repeat(depth), "]}".repeat(depth)), &mut || {
        let mut cur: Box<dyn Serialize> = Box::new(7u8);
        for _ in 0..depth {
            cur = Box::new(Owned { k: vec![cur] });
        }
        let s = to_string(&*cur);
        // Dismantled by hand: the drop of these is the compiler's.
        for _ in 0..depth {
            let raw = Box::into_raw(cur) as *mut Owned;
            let mut o = unsafe { Box::from_raw(raw) };
            cur = o.k.pop().unwrap();
        }
        s
    });
}

struct Sent<'a>(&'a mut Ctx);
unsafe impl Send for Sent<'_> {}

fn body(ctx: &mut Ctx) {
    let s = Sent(ctx);
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(sc, move || {
                let s = s;
                inner(s.0)
            })
            .unwrap()
            .join()
            .unwrap();
    });
}

fn inner(ctx: &mut Ctx) {
    let ts = types();
    ctx.set_max("targets", ts.len() as u64);
    let all: Vec<usize> = (0..MODES).collect();
    // Far more levels than the stack has words.
    let deep = 5000;
    for ty in &ts {
        let k = ty.wraps.len();
        let max = if k <= 4 { ctx.pick(3, 4) } else { ctx.pick(2, 3) };
        for len in 1..=max {
            words(len, k, &mut |w| {
                if ctx.mine() {
                    let all: &[usize] = if len <= ctx.pick(1, 2) || k <= 4 && len <= ctx.pick(2, 4) { &all } else { &[0, 4, 11] };
                    parse_case(ctx, "parsing", ty, w, deep + len, all);
                }
            });
        }
        for d in lengths(ctx.pick(70, 300), deep) {
            for w in 0..k.min(3) {
                if ctx.mine() {
                    parse_case(ctx, "every depth", ty, &[w], d, if d <= 12 { &all } else { &[0, 1, 4] });
                }
            }
        }
        let mut p = 1 << 14;
        while p <= ctx.pick(1 << 17, 1 << 19) {
            for d in [p - 1, p, p + 1] {
                for w in 0..ctx.pick(1, k) {
                    if ctx.mine() {
                        parse_case(ctx, "very deep", ty, &[w], d, if d == p { if w == 0 { &[0, 1, 4, 11] } else { &[0, 3, 7] } } else { &[0] });
                    }
                }
            }
            p *= 2;
        }
    }
    // Values made by hand rather than by the parser.
    for len in 1..=ctx.pick(2, 4) {
        words(len, WRAPS.len(), &mut |w| {
            if ctx.mine() {
                for d in [0, 1, 2, 3, 500, deep] {
                    let what = format!("value {:?}", w);
                    ser_case(ctx, &what, d, &|| broken(&text(&WRAPS, w, d), "7", 0), &mut || to_string(&deep::value(w, d, Value::Number(miniserde::json::Number::U64(7)))));
                }
            }
        });
    }
    for d in lengths(ctx.pick(300, 2000), ctx.pick(1 << 17, 1 << 21)) {
        if ctx.mine() {
            serializing(ctx, d);
            if d > 2000 {
                for w in [[0, 0], [1, 1], [0, 1], [7, 3]] {
                    ser_case(ctx, &format!("value {:?}", w), d, &|| broken(&text(&WRAPS, &w, d), "7", 0), &mut || to_string(&deep::value(&w, d, Value::Number(miniserde::json::Number::U64(7)))));
                }
            }
        }
    }
}

fn main() {
    run::main(
        Spec {
            property: "C12",
            level: "exploration",
            rule: "every nesting word over the wrappers of each target, repeated to 5000 levels and more, complete and broken in every listed way, is parsed and serialized on a thread with a 64 KiB stack: a recursion of one machine word per level overflows it. The result must be the dictated text, broken documents must be refused, and the checked allocator must balance.",
            assumptions: &["the drops of the recursive user types are iterative (the compiler's recursive drop glue of user types is not the library's)"],
            stall: 60,
            mem_mb: 4096,
            bounds: "all words of up to 2..3 (3..4) wrappers, 12 ways to end x 33 targets; all depths to 70 (300), 2^k and neighbours to 2^17 (2^19)",
        },
        body,
    )
}
