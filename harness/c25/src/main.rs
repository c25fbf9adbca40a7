//! C25: the work and the memory grow with the text, not faster.

mod step;

use mc_core::run::{self, Ctx, Spec};
use mc_derives::{Color, Two};
use miniserde::json::{self, Array, Object, Value};
use miniserde::{Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap};

/// A piece of text of about n bytes, and what it is called.
type Piece = (&'static str, fn(usize) -> String);

fn rep(u: &str, n: usize) -> String {
    u.repeat(n / u.len() + 1)
}
fn list(open: &str, u: &str, close: &str, n: usize) -> String {
    let mut s = String::from(open);
    let k = n / (u.len() + 1) + 1;
    for i in 0..k {
        if i > 0 {
            s.push(',');
        }
        s.push_str(u);
    }
    s + close
}
fn keyed(n: usize, key: impl Fn(usize, usize) -> usize, v: &str) -> String {
    let k = n / (11 + v.len()) + 1;
    let e: Vec<String> = (0..k).map(|i| format!("\"k{:06}\":{}", key(i, k), v)).collect();
    format!("{{{}}}", e.join(","))
}
fn nested(open: &str, core: &str, close: &str, n: usize) -> String {
    let k = n / (open.len() + close.len()) + 1;
    open.repeat(k) + core + &close.repeat(k)
}

/// Values that are made larger in one direction.
const PIECES: [Piece; 45] = [
    ("digits", |n| rep("7", n)),
    ("zeros", |n| format!("1{}", rep("0", n))),
    ("fraction", |n| format!("0.{}1", rep("3", n))),
    ("fraction of zeros", |n| format!("0.{}1", rep("0", n))),
    ("exponent", |n| format!("1e-{}", rep("0", n))),
    ("whitespace", |n| format!("{}0", rep(" ", n))),
    ("mixed whitespace", |n| format!("{}0", rep("\n\t\r ", n))),
    ("text", |n| format!("\"{}\"", rep("a", n))),
    ("wide text", |n| format!("\"{}\"", rep("é", n))),
    ("newlines", |n| format!("\"{}\"", rep("\\n", n))),
    ("quotes", |n| format!("\"{}\"", rep("\\\"", n))),
    ("unicode escapes", |n| format!("\"{}\"", rep("\\u00e9", n))),
    ("control escapes", |n| format!("\"{}\"", rep("\\u0001", n))),
    ("pairs of escapes", |n| format!("\"{}\"", rep("\\ud83d\\ude00", n))),
    ("escapes between text", |n| format!("\"{}\"", rep("abcdefgh\\t", n))),
    ("zeros apart", |n| list("[", "0", "]", n)),
    ("numbers", |n| list("[", "-12.5e3", "]", n)),
    ("long integers", |n| list("[", "18446744073709551615", "]", n)),
    ("nulls", |n| list("[", "null", "]", n)),
    ("truths", |n| list("[", "true", "]", n)),
    ("empty texts", |n| list("[", "\"\"", "]", n)),
    ("letters", |n| list("[", "\"a\"", "]", n)),
    ("escapes", |n| list("[", "\"\\n\"", "]", n)),
    ("unicode", |n| list("[", "\"\\u00e9\"", "]", n)),
    ("empty arrays", |n| list("[", "[]", "]", n)),
    ("empty objects", |n| list("[", "{}", "]", n)),
    ("small arrays", |n| list("[", "[0]", "]", n)),
    ("small objects", |n| list("[", "{\"a\":0}", "]", n)),
    ("small records", |n| list("[", "{\"a\":[1,\"\\t\"],\"b\":{}}", "]", n)),
    ("keys in order", |n| keyed(n, |i, _| i, "0")),
    ("keys backwards", |n| keyed(n, |i, k| k - 1 - i, "0")),
    ("keys scattered", |n| keyed(n, |i, k| (i * 7919) % (k | 1), "0")),
    ("keys from both ends", |n| keyed(n, |i, k| if i % 2 == 0 { i } else { k - i }, "[]")),
    ("number keys", |n| keyed(n, |i, k| (i * 7919) % (k | 1), "0").replace("\"k", "\"")),
    ("number keys backwards", |n| keyed(n, |i, k| k - 1 - i, "1").replace("\"k", "\"")),
    ("one key", |n| keyed(n, |_, _| 3, "\"\\n\"")),
    ("keys with escapes", |n| keyed(n, |i, _| i, "0").replace("\"k", "\"\\u006b\\n")),
    ("long key", |n| format!("{{\"{}\":0}}", rep("k", n))),
    ("deep arrays", |n| nested("[", "0", "]", n)),
    ("deep objects", |n| nested("{\"k\":", "0", "}", n)),
    ("deep mixture", |n| nested("[{\"k\":", "[]", "}]", n)),
    ("deep after", |n| nested("[0,", "0", "]", n)),
    ("deep before", |n| nested("[", "0", ",0]", n)),
    ("deep with escapes", |n| nested("{\"\\n\":[\"\\u0041\",", "{}", "]}", n)),
    ("deep in the middle", |n| nested("{\"a\":0,\"k\":", "0", ",\"z\":[\"s\"]}", n)),
];

/// Growing a block always moves it: an amortized growth stays cheap, growing by a little does not.
struct Moving;
thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}
fn held(n: isize) {
    let live = LIVE.get() + n;
    LIVE.set(live);
    if live > PEAK.get() {
        PEAK.set(live);
    }
}
unsafe impl GlobalAlloc for Moving {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        held(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        held(-(l.size() as isize));
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Moving = Moving;

struct Act {
    name: &'static str,
    /// Runs with the probe around the parsing, the writing and the dropping.
    run: fn(&str, &mut dyn FnMut(&str, &mut dyn FnMut())) -> bool,
}
fn act<T: Deserialize + Serialize>(doc: &str, probe: &mut dyn FnMut(&str, &mut dyn FnMut())) -> bool {
    let mut r = None;
    probe("parsing", &mut || r = Some(json::from_str::<T>(doc)));
    match r.unwrap() {
        Ok(v) => {
            let mut text = None;
            probe("serializing", &mut || text = Some(json::to_string(&v)));
            drop(text);
            let mut v = Some(v);
            probe("dropping", &mut || v = None);
            true
        }
        Err(_) => false,
    }
}
fn skip(doc: &str, probe: &mut dyn FnMut(&str, &mut dyn FnMut())) -> bool {
    let d = format!("{{\"a\":1,\"unknown\":{},\"b\":2}}", doc);
    let mut ok = false;
    probe("skipping", &mut || ok = json::from_str::<Two>(&d).is_ok());
    ok
}
fn entries(doc: &str, probe: &mut dyn FnMut(&str, &mut dyn FnMut())) -> bool {
    // The same entries, unknown or repeated, in a struct.
    if !doc.starts_with("{\"k") {
        return false;
    }
    let d = format!("{{\"a\":1,\"b\":2,{}", &doc[1..]);
    let e = format!("{{\"a\":1,\"b\":2,{}", &doc[1..].replace("\"k000003\"", "\"b\"").replace("\"\\n\"", "7"));
    let mut ok = false;
    probe("unknown entries", &mut || ok = json::from_str::<Two>(&d).is_ok());
    let mut ok2 = false;
    probe("repeated entries", &mut || ok2 = json::from_str::<Two>(&e).is_ok());
    ok && ok2
}
fn broken(doc: &str, probe: &mut dyn FnMut(&str, &mut dyn FnMut())) -> bool {
    // Refused at the very end, with everything built so far in hand.
    let d = format!("[{},{}", doc, "]]");
    let cut = &doc[..doc.len() - 1];
    let mut n = 0;
    probe("refusing", &mut || n += json::from_str::<Value>(&d).is_err() as u32);
    probe("refusing the truncated", &mut || n += json::from_str::<Value>(cut).is_err() as u32);
    n >= 1
}
macro_rules! acts { ($($t:ty),* $(,)?) => { vec![$(Act { name: stringify!($t), run: act::<$t> }),*] } }
fn acts() -> Vec<Act> {
    let mut v = acts![
        Value, Array, Object, String, f64, u64, Vec<u8>, Vec<f64>, Vec<u64>, Vec<String>, Vec<Value>, Vec<Option<bool>>, Vec<()>, Vec<Vec<u8>>, Vec<Two>, Vec<Color>, Vec<Box<Value>>, Vec<(u8, u8)>,
        BTreeMap<String, u8>, HashMap<String, u8>, BTreeMap<String, Value>, HashMap<String, Value>, HashMap<String, Vec<u8>>, Vec<BTreeMap<String, Value>>, Vec<HashMap<String, u8>>, Option<Vec<Option<Value>>>, Box<Vec<Box<u8>>>, BTreeMap<u64, u8>, HashMap<u32, f64>, BTreeMap<String, Option<u8>>,
    ];
    v.push(Act { name: "skipped", run: skip });
    v.push(Act { name: "entries", run: entries });
    v.push(Act { name: "broken", run: broken });
    v
}
fn steps(a: &Act, doc: &str) -> Option<Vec<(String, u64)>> {
    let mut out = Vec::new();
    (a.run)(doc, &mut |what, f| {
        let n = step::count(f);
        out.push((what.to_string(), n));
    })
    .then_some(out)
}
fn cpu() -> f64 {
    extern "C" {
        fn clock_gettime(id: i32, t: *mut [i64; 2]) -> i32;
    }
    let mut t = [0; 2];
    unsafe { clock_gettime(3, &mut t) };
    t[0] as f64 + t[1] as f64 * 1e-9
}
/// The most bytes in use at a time beyond those at the start.
fn bytes(a: &Act, doc: &str) -> Vec<(String, isize)> {
    let mut out = Vec::new();
    (a.run)(doc, &mut |what, f| {
        let before = LIVE.get();
        PEAK.set(before);
        f();
        let n = PEAK.get() - before;
        out.push((what.to_string(), n));
    });
    out
}
/// The memory in use, for the text doubled six times over.
fn stored(ctx: &mut Ctx, fam: &'static str, a: &Act, name: &str, text: &dyn Fn(usize) -> String, sizes: &[usize]) {
    let name = format!("{}: {} {:?}", a.name, name, sizes);
    ctx.set_max("most bytes in use per byte of text, in hundredths", 0);
    if !ctx.go(fam, name.as_bytes()) {
        return;
    }
    let mut last: Option<Vec<(String, isize)>> = None;
    for &n in sizes {
        let doc = text(n);
        let now = bytes(a, &doc);
        let len = doc.len() as isize;
        for (what, b) in &now {
            if len >= 1000 {
                ctx.set_max("most bytes in use per byte of text, in hundredths", (*b * 100 / len) as u64);
            }
            ctx.check(*b <= 2000 + PER_BYTE * len, || format!("{} {} bytes of text takes {} bytes of memory", what, len, b));
        }
        if let Some(last) = &last {
            for ((what, x), (_, y)) in last.iter().zip(&now) {
                let k = (sizes[1] / sizes[0]) as isize;
                // What is taken while other parts are given back may cancel out: up to two
                // bytes for one of text are no sign of growth.
                ctx.check(*y <= x * k * 5 / 2 + 2 * len + 20_000, || format!("{} {} bytes takes {} bytes of memory, {} bytes {}", what, n as isize / k, x, n, y));
            }
        }
        last = Some(now);
        ctx.beat();
    }
    ctx.nontrivial();
}
/// A node of a map of maps for every few bytes is the most there is.
const PER_BYTE: isize = 250;

fn time(a: &Act, doc: &str) -> Vec<f64> {
    let mut out = Vec::new();
    (a.run)(doc, &mut |_, f| {
        let t = cpu();
        f();
        out.push(cpu() - t);
    });
    out
}

/// Four times the text may take at most this many times the instructions.
const RATIO: f64 = 9.0;
const SLACK: f64 = 8_000.0;

fn grow(ctx: &mut Ctx, fam: &'static str, a: &Act, name: &str, text: &dyn Fn(usize) -> String, sizes: &[usize]) {
    let name = format!("{}: {} {:?}", a.name, name, sizes);
    ctx.set_max("largest growth for four times the text, in thousandths", 0);
    if !ctx.go(fam, name.as_bytes()) {
        return;
    }
    let mut last: Option<Vec<(String, u64)>> = None;
    for &n in sizes {
        let Some(now) = steps(a, &text(n)) else { return };
        ctx.beat();
        if let Some(last) = &last {
            for ((what, x), (_, y)) in last.iter().zip(&now) {
                let r = *y as f64 / (*x as f64 + SLACK / RATIO);
                ctx.set_max("largest growth for four times the text, in thousandths", (r * 1000.0) as u64);
                ctx.check(r <= RATIO, || format!("{} {} bytes takes {} instructions, {} bytes {}", what, n / 4, x, n, y));
            }
        }
        ctx.add("instructions", now.iter().map(|x| x.1).sum());
        last = Some(now);
    }
    ctx.nontrivial();
}
fn clocked(ctx: &mut Ctx, fam: &'static str, a: &Act, name: &str, text: &dyn Fn(usize) -> String, n: usize) {
    let name = format!("{}: {} {}", a.name, name, n);
    if !ctx.go(fam, name.as_bytes()) {
        return;
    }
    // What grows too fast is seen at a quarter, in a sixteenth of the time, where it is strong.
    for n in [n / 16, n / 4, n] {
        let (small, large) = (text(n / 16), text(n));
        if !compared(ctx, a, n, Some(&small), &large) {
            return;
        }
    }
    ctx.nontrivial();
}
/// One document whose time is only held against its size.
fn clocked_docs(ctx: &mut Ctx, fam: &'static str, a: &Act, name: &str, n: usize, small: Option<&str>, large: &str) {
    let name = format!("{}: {} {}", a.name, name, n);
    if ctx.go(fam, name.as_bytes()) && compared(ctx, a, n, small, large) {
        ctx.nontrivial();
    }
}
fn compared(ctx: &mut Ctx, a: &Act, n: usize, small: Option<&str>, large: &str) -> bool {
    // Once to see; when it looks slow, the best of three.
    let mut best: Option<(Vec<f64>, Vec<f64>)> = None;
    for _ in 0..3 {
        let l = time(a, large);
        let s = small.map_or(vec![0.0; l.len()], |small| time(a, small));
        ctx.beat();
        best = Some(match best {
            None => (s, l),
            Some((bs, bl)) => (bs.iter().zip(&s).map(|(a, b)| a.max(*b)).collect(), bl.iter().zip(&l).map(|(a, b)| a.min(*b)).collect()),
        });
        let (bs, bl) = best.as_ref().unwrap();
        if bs.iter().zip(bl).all(|(s, l)| !slow(n, *s, *l)) {
            return true;
        }
    }
    let (bs, bl) = best.unwrap();
    ctx.fail(format!("{} bytes take {:.3?} s, {} bytes {:.3?} s", n / 16, bs, n, bl));
    false
}
/// Sixteen times the text: sixteen times the time, or two hundred and fifty-six? Only asked where
/// the time is out of the ordinary, hundreds of instructions for every byte.
fn slow(n: usize, s: f64, l: f64) -> bool {
    l > n as f64 * 0.3e-6 && l > 60.0 * s
}

fn body(ctx: &mut Ctx) {
    let quick = ctx.quick();
    step::install();
    let acts = acts();
    let sizes: &[usize] = if quick { &[200, 800] } else { &[300, 1200, 4800] };
    let mem: &[usize] = if quick { &[1 << 10, 1 << 14, 1 << 18] } else { &[1 << 8, 1 << 10, 1 << 12, 1 << 14, 1 << 16, 1 << 18, 1 << 20, 1 << 22] };
    let big = ctx.pick(1 << 21, 1 << 24);
    for (name, f) in PIECES {
        for a in &acts {
            if !ctx.mine() {
                continue;
            }
            if matches!(a.name, "Value" | "skipped" | "broken" | "entries" | "BTreeMap<String, u8>" | "Vec<Two>") {
                grow(ctx, "one piece", a, name, &f, sizes);
            } else if !quick {
                grow(ctx, "one piece", a, name, &f, &[200, 800]);
            }
            stored(ctx, "one piece, memory", a, name, &f, mem);
            let part = if matches!(a.name, "Value" | "skipped" | "broken" | "entries") || name.contains("key") { 1 } else { 4 };
            clocked(ctx, "one piece, large", a, name, &f, big / part);
        }
    }
    // Arrays of a fixed length.
    if ctx.mine() {
        fn of<T: Deserialize + Serialize, const N: usize>(ctx: &mut Ctx, name: &'static str, e: &str) {
            let a = [Act { name, run: act::<Box<[T; N]>> }, Act { name, run: act::<Vec<[T; 16]>> }];
            let doc = format!("[{}{}]", format!("{},", e).repeat(N - 1), e);
            let short = doc.len() / N * 16;
            clocked_docs(ctx, "arrays", &a[0], &format!("{} elements", N), doc.len(), None, &doc);
            let rows = |n: usize| list("[", &format!("[{}{}]", format!("{},", e).repeat(15), e), "]", n);
            clocked(ctx, "arrays", &a[1], &format!("rows {}", short), &rows, doc.len());
        }
        of::<u8, 4096>(ctx, "u8", "7");
        of::<u8, 131072>(ctx, "u8", "7");
        of::<String, 4096>(ctx, "String", "\"\\n\"");
        of::<String, 65536>(ctx, "String", "\"\\n\"");
        of::<Value, 32768>(ctx, "Value", "[]");
        of::<Option<u64>, 65536>(ctx, "Option<u64>", "null");
        of::<(), 131072>(ctx, "()", "null");
    }
    // One piece before, after and inside another that grows with it.
    let few = |i: usize| matches!(PIECES[i].0, "digits" | "text" | "unicode escapes" | "zeros apart" | "escapes" | "small arrays" | "small objects" | "keys in order" | "one key" | "deep arrays" | "deep objects" | "long key");
    let chosen: Vec<usize> = (0..PIECES.len()).filter(|i| !quick || few(*i)).collect();
    let deep = ["[", "{\"k\":", "[\"\\n\",{\"\":"];
    for &i in &chosen {
        for &j in &chosen {
            let (p, q) = (PIECES[i], PIECES[j]);
            for a in acts.iter().filter(|a| matches!(a.name, "Value" | "skipped") || (!quick && a.name == "broken")) {
                if !ctx.mine() {
                    continue;
                }
                let f = |n: usize| format!("[{},{}]", p.1(n / 2), q.1(n / 2));
                let name = format!("{}, then {}", p.0, q.0);
                if !quick && a.name == "Value" && few(i) && few(j) {
                    grow(ctx, "two pieces", a, &name, &f, &[200, 800]);
                }
                stored(ctx, "two pieces, memory", a, &name, &f, mem);
                clocked(ctx, "two pieces, large", a, &name, &f, big.min(1 << 22));
            }
        }
    }
    for (d, close) in deep.iter().zip(["]", "}", "}]"]) {
        for &i in &chosen {
            for a in acts.iter().filter(|a| matches!(a.name, "Value" | "skipped" | "broken")) {
                if !ctx.mine() {
                    continue;
                }
                let f = |n: usize| nested(d, &PIECES[i].1(n / 2), close, n / 2);
                let name = format!("{} below {}", PIECES[i].0, d);
                if !quick || a.name == "Value" {
                    grow(ctx, "below a deep one", a, &name, &f, &[200, 800]);
                }
                stored(ctx, "below a deep one, memory", a, &name, &f, mem);
                clocked(ctx, "below a deep one, large", a, &name, &f, big.min(1 << 22));
            }
        }
    }
}

fn main() {
    run::main(
        Spec {
            property: "C25",
            level: "exploration",
            rule: "every machine instruction of parsing, skipping, refusing, serializing and dropping is counted (processor trap flag) for documents of one shape and four times the size: the count may grow at most nine fold; and the processor time of documents of megabytes may not grow by more than sixty fold for sixteen times the text where it exceeds 0.3 microseconds per byte; the most memory in use at a time is bounded per byte of text and may grow by at most two and a half times the factor of the text",
            assumptions: &["system calls and page faults are not counted; a growth of n log n is within the bound at these sizes"],
            stall: 300,
            mem_mb: 8192,
            bounds: "45 pieces into 33 targets and arrays of 2^12 to 2^17 elements, 13 (45) pieces before each other and below 3 deep shapes; 200 and 800 (4800) bytes by instructions for 6 (30) targets, 512 KiB to 2 MiB (4 to 16 MiB) by processor time for all; 1 KiB to 256 KiB (4 MiB) by memory",
        },
        body,
    )
}
