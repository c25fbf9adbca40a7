//! C18: concurrent and nested calls do not affect one another.

mod step;

use mc_core::alloc::Checked;
use mc_core::gen::words;
use mc_core::run::{self, Ctx, Spec};
use mc_core::rv::{read_ok, RV};
use mc_probe::dec::targets;
use mc_probe::serde_side::node;
use mc_probe::{restore, save, set_hook, Act, Ev, EVERY};
use miniserde::json::{from_str, to_string, Number, Value};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::sync::{Arc, Condvar, Mutex};

#[global_allocator]
static A: Checked = Checked;

const NEVER: usize = usize::MAX;

/// What a call did, as far as its caller and its callbacks can tell.
#[derive(Clone, PartialEq, Debug)]
struct Out {
    result: Result<String, String>,
    log: Vec<Ev>,
    bad: Option<String>,
}
#[derive(Clone)]
struct Call {
    name: String,
    run: Arc<dyn Fn(usize, Act) -> Out + Send + Sync>,
}
impl Call {
    fn plain(&self) -> Out {
        (self.run)(NEVER, Act::Nothing)
    }
    fn points(&self) -> usize {
        self.plain().log.len()
    }
}
fn out<R>(r: mc_probe::Run<R>, f: impl FnOnce(R) -> String) -> Out {
    let result = match r.result {
        Ok(x) => Ok(f(x)),
        Err(_) => Err("panic".to_string()),
    };
    Out { result, log: r.log, bad: r.bad }
}

/// Parsing into an instrumented target.
fn dec(target: &'static str, doc: &str) -> Call {
    let t = targets().into_iter().find(|t| t.name == target).unwrap_or_else(|| panic!("no target {}", target));
    let doc = doc.to_string();
    Call { name: format!("{} <- {}", target, doc), run: Arc::new(move |at, act| out((t.go)(&doc, at, act), |ok| ok.to_string())) }
}
/// Serializing instrumented nodes.
fn ser(doc: &str, mix: usize) -> Call {
    let rv: RV = read_ok(doc).unwrap();
    Call {
        name: format!("{} -> text {}", doc, mix),
        run: Arc::new(move |at, act| {
            let n = node(&rv, mix, &mut 0);
            out(mc_probe::serde_side::go(&n, at, act), |s| s)
        }),
    }
}
/// The library's own types, without user code.
fn lib<T: miniserde::Deserialize + miniserde::Serialize + 'static>(doc: &str) -> Call {
    let doc = doc.to_string();
    Call {
        name: format!("{} <-> {}", std::any::type_name::<T>(), doc),
        run: Arc::new(move |at, act| out(mc_probe::run(at, act, || from_str::<T>(&doc).map(|t| to_string(&t)), |r| r), |r| format!("{:?}", r.ok()))),
    }
}
#[derive(miniserde::Serialize, miniserde::Deserialize)]
struct S {
    #[serde(rename = "n\n")]
    a: String,
    b: Option<Vec<f64>>,
    k: E,
}
#[derive(miniserde::Serialize, miniserde::Deserialize)]
enum E {
    One,
    #[serde(rename = "t\tw")]
    Two,
}

fn calls() -> Vec<Call> {
    let s = "{\"n\\n\":\"x\\u0041\",\"b\":[1.5,2e3],\"k\":\"t\\tw\"}";
    let mut v = vec![
        dec("P", "1"),
        dec("P", "\"a\\n\""),
        dec("P", "\"b\\u0042c\""),
        dec("P", "[1]"),
        dec("P", "{\"k\\t\":-2}"),
        dec("Vec<P>", "[1.5]"),
        dec("Vec<P>", "[\"\\\"q\""),
        dec("Option<P>", "null"),
        dec("Box<Vec<P>>", "[[]]"),
        dec("[P; 2]", "[0,\"\\\\\"]"),
        dec("BTreeMap<K, P>", "{\"\\u006b\":\"v\"}"),
        dec("HK<P>", "{\"h\":1}"),
        dec("St", "{\"a\":1,\"c\":[]}"),
        dec("Empty", "{\"x\":[1,{\"y\\n\":\"z\\n\"}]}"),
        dec("G<P>", "{\"a\":\"g\\tg\"}"),
        dec("P", "[\"one\\n\",\"two\\n\"]"),
        dec("P", "[[\"deep\\n\"],2"),
        dec("P", "tru"),
        dec("(P, P)", "[1e400,2]"),
        ser("1", 0),
        ser("\"s\\n\"", 0),
        ser("[1]", 31),
        ser("{\"k\\n\":null}", 31),
        ser("[[],{\"a\":\"b\\t\"}]", 0),
        lib::<Value>("{\"a\\n\":[1,-2.5e-3,\"\\ud83d\\ude00x\"],\"b\":{}}"),
        lib::<Value>("[1,2"),
        lib::<S>(s),
        lib::<Vec<String>>("[\"p\\n\",\"q\",\"\\u0072\"]"),
        lib::<BTreeMap<String, Option<u8>>>("{\"z\\n\":1,\"y\":null}"),
        lib::<f64>("123456789012345678901.25e-7"),
        lib::<(u8, Box<[i64; 2]>)>("[7,[-1,9223372036854775807]]"),
        lib::<Number>("18446744073709551615"),
    ];
    v.push(lib::<Vec<Option<bool>>>("[true,null,false,tru"));
    v
}

/// Every call alone, on a thread of its own that has made no other call.
fn alone(cs: &[Call]) -> Vec<Out> {
    cs.iter()
        .map(|c| {
            let c = c.clone();
            std::thread::spawn(move || c.plain()).join().unwrap()
        })
        .collect()
}
fn same(got: &Out, want: &Out) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    if got.bad != want.bad {
        return Err(format!("{:?}", got.bad));
    }
    if got.result != want.result {
        return Err(format!("returns {:?} instead of {:?}", got.result, want.result));
    }
    let i = got.log.iter().zip(&want.log).take_while(|(a, b)| a == b).count();
    Err(format!("call {} is {:?} instead of {:?}", i, got.log.get(i), want.log.get(i)))
}

// ---- nested calls

thread_local!(static NESTED: RefCell<Option<String>> = const { RefCell::new(None) });
fn note(e: String) {
    NESTED.with(|n| {
        let mut n = n.borrow_mut();
        if n.is_none() {
            *n = Some(e)
        }
    })
}

/// At point `k` (or every point) of `a`, runs `inner`.
fn with_hook(a: &Call, k: usize, inner: impl FnMut(usize) + 'static) -> Out {
    NESTED.with(|n| *n.borrow_mut() = None);
    set_hook(Some(Box::new(inner)));
    let o = (a.run)(k, Act::Call);
    set_hook(None);
    o
}
fn verdict(o: &Out, want: &Out) -> Result<(), String> {
    if let Some(e) = NESTED.with(|n| n.borrow_mut().take()) {
        return Err(format!("the inner call: {}", e));
    }
    same(o, want).map_err(|e| format!("the outer call: {}", e))
}

fn nested(ctx: &mut Ctx, cs: &[Call], base: &[Out]) {
    // Inner calls: complete, failing in a callback, panicking in a callback.
    let mut inner: Vec<(usize, usize, Act)> = Vec::new();
    for (i, c) in cs.iter().enumerate() {
        inner.push((i, NEVER, Act::Nothing));
        let n = c.points();
        for k in 0..n {
            if k < 3 || k + 2 > n || !ctx.quick() {
                inner.push((i, k, Act::Err));
                inner.push((i, k, Act::Panic));
            }
        }
    }
    let faulty: Vec<Out> = inner
        .iter()
        .map(|&(i, k, act)| {
            let c = cs[i].clone();
            std::thread::spawn(move || (c.run)(k, act)).join().unwrap()
        })
        .collect();
    for (a, ca) in cs.iter().enumerate() {
        let n = base[a].log.len();
        for (j, &(i, at, act)) in inner.iter().enumerate() {
            if !ctx.mine() {
                continue;
            }
            for k in (0..n).chain([EVERY]) {
                if n == 0 || !ctx.go("nested", format!("{} / at {} / {} {} {:?}", ca.name, k as isize, cs[i].name, at as isize, act).as_bytes()) {
                    continue;
                }
                let b = cs[i].clone();
                let want = faulty[j].clone();
                let o = with_hook(ca, k, move |_| {
                    let s = save();
                    let o = (b.run)(at, act);
                    restore(s);
                    if let Err(e) = same(&o, &want) {
                        note(e)
                    }
                });
                if let Err(e) = verdict(&o, &base[a]) {
                    ctx.fail(e);
                }
                ctx.nontrivial();
            }
        }
    }
    // Three levels: the middle call also runs another at each of its points.
    for (a, ca) in cs.iter().enumerate() {
        for (b, cb) in cs.iter().enumerate() {
            if !ctx.mine() || base[a].log.is_empty() || base[b].log.is_empty() {
                continue;
            }
            for (c, cc) in cs.iter().enumerate() {
                if ctx.quick() && c % 3 != (a + b) % 3 {
                    continue;
                }
                if !ctx.go("nested twice", format!("{} / {} / {}", ca.name, cb.name, cc.name).as_bytes()) {
                    continue;
                }
                let (cb, cc) = (cb.clone(), cc.clone());
                let (wb, wc) = (base[b].clone(), base[c].clone());
                let o = with_hook(ca, EVERY, move |_| {
                    let s = save();
                    let (cc, wc) = (cc.clone(), wc.clone());
                    set_hook(Some(Box::new(move |_| {
                        let s = save();
                        let o = cc.plain();
                        restore(s);
                        if let Err(e) = same(&o, &wc) {
                            note(format!("innermost: {}", e))
                        }
                    })));
                    let o = (cb.run)(EVERY, Act::Call);
                    set_hook(None);
                    restore(s);
                    if let Err(e) = same(&o, &wb) {
                        note(e)
                    }
                });
                if let Err(e) = verdict(&o, &base[a]) {
                    ctx.fail(e);
                }
                ctx.nontrivial();
            }
        }
    }
}

// ---- sequences of calls

fn sequences(ctx: &mut Ctx, cs: &[Call], base: &[Out]) {
    let mut first: Vec<(usize, usize, Act)> = Vec::new();
    for (i, c) in cs.iter().enumerate() {
        first.push((i, NEVER, Act::Nothing));
        for k in 0..c.points() {
            first.push((i, k, Act::Err));
            first.push((i, k, Act::Panic));
        }
    }
    // Documents cut at every byte, in the library's own types.
    let docs = ["{\"a\\n\":[1,-2.5e-3,\"\\ud83d\\ude00x\"],\"b\":{}}", "[\"\\u0041\\\\\",tru", "-0.5e+10"];
    for d in docs {
        for i in 0..=d.len() {
            if ctx.mine() {
                if ctx.go("after a cut document", d[..i].as_bytes()) {
                    for (y, cy) in cs.iter().enumerate() {
                        let _ = from_str::<Value>(&d[..i]);
                        let _ = from_str::<Vec<String>>(&d[..i]);
                        let _ = from_str::<S>(&d[..i]);
                        if let Err(e) = same(&cy.plain(), &base[y]) {
                            ctx.fail(format!("{}: {}", cy.name, e));
                        }
                    }
                    ctx.nontrivial();
                }
            }
        }
    }
    for &(x, k, act) in &first {
        if !ctx.mine() {
            continue;
        }
        for (y, cy) in cs.iter().enumerate() {
            if ctx.go("one after another", format!("{} {} {:?} / {}", cs[x].name, k as isize, act, cy.name).as_bytes()) {
                (cs[x].run)(k, act);
                if let Err(e) = same(&cy.plain(), &base[y]) {
                    ctx.fail(e);
                }
                ctx.nontrivial();
            }
        }
    }
    // Longer histories: every pair of earlier calls.
    for (n, &(x, k, act)) in first.iter().enumerate() {
        if !ctx.mine() || ctx.quick() && n % 3 > 0 {
            continue;
        }
        for &(x2, k2, act2) in &first {
            if ctx.quick() && act2 == Act::Err {
                continue;
            }
            if ctx.go("two before", format!("{} {} {:?} / {} {} {:?}", cs[x].name, k as isize, act, cs[x2].name, k2 as isize, act2).as_bytes()) {
                (cs[x].run)(k, act);
                (cs[x2].run)(k2, act2);
                for y in [2, 10, 13, 16, 24, 26] {
                    if let Err(e) = same(&cs[y].plain(), &base[y]) {
                        ctx.fail(format!("{}: {}", cs[y].name, e));
                    }
                }
                ctx.nontrivial();
            }
        }
    }
}

// ---- what went before was big, or went on for long

fn sizes(ctx: &mut Ctx, cs: &[Call], base: &[Out]) {
    let most = ctx.pick(17, 21);
    let mut ns: Vec<usize> = Vec::new();
    for k in 2..=most {
        for d in [-1i64, 0, 1] {
            ns.push(((1i64 << k) + d) as usize);
        }
    }
    for p in [10usize, 100, 1000, 10_000, 100_000, 1_000_000] {
        if p < 1 << most {
            ns.extend([p - 1, p, p + 1]);
        }
    }
    ns.sort_unstable();
    ns.dedup();
    type Big = (&'static str, fn(usize) -> String);
    let big: [Big; 14] = [
        ("string", |n| format!("\"{}\"", "x".repeat(n))),
        ("escaped string", |n| format!("\"\\n{}\"", "\\u00e9".repeat(n))),
        ("string at the end", |n| format!("[1,\"\\n\",\"{}\"]", "x".repeat(n))),
        ("broken string", |n| format!("[\"{}", "\\n".repeat(n))),
        ("key", |n| format!("{{\"{}\":1}}", "k".repeat(n))),
        ("escaped key", |n| format!("{{\"{}\":1", "\\t".repeat(n))),
        ("array", |n| format!("[{}1]", "1,".repeat(n - 1))),
        ("array of strings", |n| format!("[{}\"\"]", "\"s\\n\",".repeat(n - 1))),
        ("object", |n| format!("{{{}\"e\":0}}", (1..n).map(|i| format!("\"{}\":{},", i, i)).collect::<String>())),
        ("nesting", |n| format!("{}{}", "[".repeat(n), "]".repeat(n))),
        ("nesting cut short", |n| "{\"a\":[".repeat(n)),
        ("digits", |n| format!("[1{}]", "0".repeat(n))),
        ("fraction", |n| format!("[0.{}1]", "0".repeat(n))),
        ("spaces", |n| format!("[{}1{}", " ".repeat(n), "\n".repeat(n))),
    ];
    for (name, make) in big {
        for &n in &ns {
            if !ctx.mine() {
                continue;
            }
            if ctx.go("after a big document", format!("{} {}", name, n).as_bytes()) {
                let d = make(n);
                if let Ok(v) = from_str::<Value>(&d) {
                    let t = to_string(&v);
                    let _ = from_str::<Value>(&t[..t.len() - 1]);
                }
                let _ = from_str::<S>(&d);
                let _ = from_str::<Vec<String>>(&d).map(|v| to_string(&v));
                let _ = from_str::<BTreeMap<String, Option<u8>>>(&d).map(|v| to_string(&v));
                let _ = from_str::<Vec<f64>>(&d).map(|v| to_string(&v));
                for (y, cy) in cs.iter().enumerate() {
                    if let Err(e) = same(&cy.plain(), &base[y]) {
                        ctx.fail(format!("{}: {}", cy.name, e));
                        break;
                    }
                }
                ctx.nontrivial();
            }
        }
    }
    // The same call again and again, whatever its end, then every other.
    for cx in cs {
        let p = cx.points();
        for k in (0..p.min(ctx.pick(2, 100))).chain([NEVER]) {
            for act in if k == NEVER { &[Act::Nothing][..] } else { &[Act::Err, Act::Panic] } {
                if !ctx.mine() {
                    continue;
                }
                let n = ctx.pick(if *act == Act::Panic { 300 } else { 1100 }, if *act == Act::Panic { 5000 } else { 70_000 });
                if ctx.go("after many calls", format!("{} {} {:?} {} times", cx.name, k as isize, act, n).as_bytes()) {
                    for _ in 0..n {
                        (cx.run)(k, *act);
                    }
                    for (y, cy) in cs.iter().enumerate() {
                        if let Err(e) = same(&cy.plain(), &base[y]) {
                            ctx.fail(format!("{}: {}", cy.name, e));
                            break;
                        }
                    }
                    ctx.nontrivial();
                }
            }
        }
    }
}

// ---- threads under a scheduler

/// Threads take turns at their callbacks; the order is given.
struct Sched {
    s: Mutex<Turns>,
    cv: Condvar,
}
struct Turns {
    order: Vec<u8>,
    pos: usize,
    finished: Vec<bool>,
    jobs: Vec<Option<Call>>,
    outs: Vec<Option<Out>>,
    /// Whose turn; 255 is the explorer.
    turn: u8,
    quit: bool,
}
impl Turns {
    /// The next turn goes to the next scheduled thread that is not finished.
    fn advance(&mut self) {
        loop {
            self.pos += 1;
            match self.order.get(self.pos) {
                Some(&i) if self.finished[i as usize] => continue,
                Some(&i) => {
                    self.turn = i;
                    return;
                }
                None => {
                    self.turn = self.finished.iter().position(|f| !f).map_or(255, |i| i as u8);
                    return;
                }
            }
        }
    }
}
impl Sched {
    fn new(n: usize) -> Arc<Sched> {
        let s = Arc::new(Sched {
            s: Mutex::new(Turns { order: vec![], pos: 0, finished: vec![true; n], jobs: vec![None; n], outs: vec![None; n], turn: 255, quit: false }),
            cv: Condvar::new(),
        });
        for i in 0..n {
            let s = s.clone();
            std::thread::spawn(move || loop {
                let c = {
                    let mut t = s.s.lock().unwrap();
                    while !(t.quit || t.turn == i as u8 && t.jobs[i].is_some()) {
                        t = s.cv.wait(t).unwrap();
                    }
                    if t.quit {
                        return;
                    }
                    t.jobs[i].take().unwrap()
                };
                let s2 = s.clone();
                set_hook(Some(Box::new(move |_| {
                    let mut t = s2.s.lock().unwrap();
                    t.advance();
                    if t.turn != i as u8 {
                        s2.cv.notify_all();
                        while t.turn != i as u8 {
                            t = s2.cv.wait(t).unwrap();
                        }
                    }
                })));
                let o = (c.run)(EVERY, Act::Call);
                set_hook(None);
                let mut t = s.s.lock().unwrap();
                t.outs[i] = Some(o);
                t.finished[i] = true;
                t.advance();
                s.cv.notify_all();
            });
        }
        s
    }
    fn run(&self, cs: &[&Call], order: &[u8]) -> Vec<Out> {
        let mut t = self.s.lock().unwrap();
        let n = t.finished.len();
        for i in 0..n {
            t.finished[i] = i >= cs.len();
            t.jobs[i] = cs.get(i).map(|c| (*c).clone());
            t.outs[i] = None;
        }
        t.order = order.to_vec();
        t.pos = 0;
        t.turn = order[0];
        self.cv.notify_all();
        while t.turn != 255 {
            t = self.cv.wait(t).unwrap();
        }
        (0..cs.len()).map(|i| t.outs[i].take().unwrap()).collect()
    }
}
impl Drop for Sched {
    fn drop(&mut self) {
        self.s.lock().unwrap().quit = true;
        self.cv.notify_all();
    }
}

/// All orders of `left[i]` turns of each thread i.
fn orders(left: &mut Vec<usize>, pre: &mut Vec<u8>, f: &mut dyn FnMut(&[u8])) {
    if left.iter().all(|n| *n == 0) {
        f(pre);
        return;
    }
    for i in 0..left.len() {
        if left[i] > 0 {
            left[i] -= 1;
            pre.push(i as u8);
            orders(left, pre, f);
            pre.pop();
            left[i] += 1;
        }
    }
}
fn how_many(n: &[usize]) -> f64 {
    let mut total = 0;
    let mut r = 1.0;
    for &k in n {
        for j in 1..=k {
            total += 1;
            r = r * total as f64 / j as f64;
        }
    }
    r
}

fn interleaved(ctx: &mut Ctx, cs: &[Call], base: &[Out]) {
    let sched = Sched::new(3);
    let with: Vec<usize> = (0..cs.len()).filter(|&i| !base[i].log.is_empty()).collect();
    let mut sets: Vec<Vec<usize>> = Vec::new();
    for &a in &with {
        for &b in &with {
            if b >= a {
                sets.push(vec![a, b]);
            }
        }
    }
    for &a in &with {
        for &b in &with {
            for &c in &with {
                if b >= a && c >= b {
                    sets.push(vec![a, b, c]);
                }
            }
        }
    }
    let most = ctx.pick(1300.0, 13000.0);
    let mut left_out = 0;
    for set in sets {
        let mut n: Vec<usize> = set.iter().map(|&i| base[i].log.len() + 1).collect();
        let few = if set.len() == 3 { ctx.pick(300.0, 2000.0) } else { most };
        if how_many(&n) > few {
            left_out += 1;
            continue;
        }
        if !ctx.mine() {
            continue;
        }
        let chosen: Vec<&Call> = set.iter().map(|&i| &cs[i]).collect();
        let names: Vec<&str> = chosen.iter().map(|c| c.name.as_str()).collect();
        let names = names.join(" | ");
        orders(&mut n, &mut Vec::new(), &mut |o| {
            if ctx.go("interleaved", format!("{} {:?}", names, o).as_bytes()) {
                for (i, got) in sched.run(&chosen, o).iter().enumerate() {
                    if let Err(e) = same(got, &base[set[i]]) {
                        ctx.fail(format!("thread {} {}: {}", i, chosen[i].name, e));
                    }
                }
                ctx.nontrivial();
            }
        });
    }
    ctx.set_max("sets of calls with too many interleavings", left_out);
}

// ---- preemption at instructions

fn preempted(ctx: &mut Ctx, cs: &[Call], base: &[Out]) {
    step::install();
    let other = std::thread::spawn(step::other);
    for (a, ca) in cs.iter().enumerate() {
        for (b, cb) in cs.iter().enumerate() {
            if !ctx.mine() || ctx.quick() && (a + b) % 4 != 0 {
                continue;
            }
            let (cb2, want) = (cb.clone(), base[b].clone());
            let mut job = step::Job { run: Box::new(move || same(&cb2.plain(), &want)), bad: None };
            // The other thread runs at every instruction; then at a single one only.
            let mut plans = vec![(0, 1)];
            if !ctx.quick() {
                plans.extend([(0, 2), (1, 2), (0, 7), (3, 50), (17, 101)]);
            }
            let mut steps = 0;
            for (first, every) in plans {
                if ctx.go("preempted", format!("{} | {} from {} every {}", ca.name, cb.name, first, every).as_bytes()) {
                    let (o, n, runs) = step::stepped(first, every, u64::MAX, &mut job, || ca.plain());
                    steps = n;
                    if let Some(e) = job.bad.take() {
                        ctx.fail(format!("the other thread's {}: {}", cb.name, e));
                    }
                    if let Err(e) = same(&o, &base[a]) {
                        ctx.fail(e);
                    }
                    ctx.check(n > 50, || "the call was not stepped".into());
                    ctx.add("instruction-level preemptions", runs);
                    ctx.nontrivial();
                }
            }
            ctx.set_max("instructions in a call", steps);
            if steps < ctx.pick(0, 2500) && (a + 2 * b) % 7 == 0 {
                if ctx.go("preempted once", format!("{} | {}", ca.name, cb.name).as_bytes()) {
                    for k in 0..steps {
                        let (o, _, runs) = step::stepped(k, u64::MAX, k + 1, &mut job, || ca.plain());
                        if let Some(e) = job.bad.take() {
                            ctx.fail(format!("the other thread's {}: {}", cb.name, e));
                        }
                        if let Err(e) = same(&o, &base[a]) {
                            ctx.fail(format!("preempted after {} instructions: {}", k, e));
                        }
                        ctx.add("instruction-level preemptions", runs);
                        ctx.add("schedules with one preemption", 1);
                        ctx.go("preempted once", format!("{} | {}", ca.name, cb.name).as_bytes());
                    }
                    ctx.nontrivial();
                }
            }
        }
    }
    step::quit();
    other.join().unwrap();
}

fn body(ctx: &mut Ctx) {
    run::QUIET.store(true, std::sync::atomic::Ordering::Relaxed);
    let cs = calls();
    let base = alone(&cs);
    ctx.set_max("calls", cs.len() as u64);
    for (c, b) in cs.iter().zip(&base) {
        if let Some(e) = &b.bad {
            ctx.go("alone", c.name.as_bytes());
            ctx.fail(e.clone());
        }
    }
    nested(ctx, &cs, &base);
    sequences(ctx, &cs, &base);
    sizes(ctx, &cs, &base);
    interleaved(ctx, &cs, &base);
    preempted(ctx, &cs, &base);
    let _ = words;
}

fn main() {
    run::main(
        Spec {
            property: "C18",
            level: "exploration",
            rule: "stateless exploration on the real code: every interleaving of the callbacks of 2 and 3 calls on real threads under a handoff scheduler; a complete, failing or panicking call inside every callback of every other call (and a third inside that); every sequence of two and three calls, the earlier ones failing or panicking at every point; every call after documents of 14 kinds of every size, and after any call made hundreds of times; and a call stopped after every one of its machine instructions while another thread makes a complete call. Every call must return and call back exactly what it does alone on a fresh thread.",
            assumptions: &["interleavings between callbacks are explored at instruction granularity only with the other call running to completion (one preemption at a time)"],
            stall: 60,
            mem_mb: 4096,
            bounds: "33 calls; pairs with up to 1300 (13000) and triples with up to 300 (2000) interleavings; all pairs nested, all triples (a third of them in quick); sizes around every power of two to 2^17 (2^21) and of ten, 300 to 1100 (5000 to 70000) repetitions; instruction-level preemption for a quarter of (all) ordered pairs",
        },
        body,
    )
}
