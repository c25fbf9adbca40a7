//! C13: discarding untyped values never recurses and frees everything.

use mc_core::alloc::{mark, stack_low, stack_watch, Checked};
use mc_core::gen::{lengths, trees, words};
use mc_core::run::{self, Ctx, Spec};
use mc_core::rv::RV;
use mc_zoo::deep::{self, text, WRAPS};
use miniserde::json::{from_str, Array, Number, Object, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BinaryHeap, HashMap, LinkedList, VecDeque};
use std::rc::Rc;
use std::sync::Arc;

#[global_allocator]
static A: Checked = Checked;

const STACK: usize = 64 << 10;

type Mk<'a> = &'a dyn Fn() -> Value;
type Way = (&'static str, fn(Mk));

fn arr(mk: Mk, n: usize) -> Array {
    let mut a = Array::new();
    for _ in 0..n {
        a.push(mk());
    }
    a
}
fn obj(mk: Mk, n: usize) -> Object {
    let mut o = Object::new();
    for i in 0..n {
        o.insert(format!("k{}", i), mk());
    }
    o
}
fn holder(v: Value) -> (Array, Object) {
    match v {
        Value::Array(a) => (a, Object::new()),
        Value::Object(o) => (Array::new(), o),
        _ => (Array::new(), Object::new()),
    }
}

macro_rules! ways {
    ($($name:literal: $f:expr;)*) => {
        vec![$(($name, $f as fn(Mk))),*]
    };
}

#[rustfmt::skip]
fn ways() -> Vec<Way> {
    ways! {
        "drop": |mk| drop(mk());
        "assign over": |mk| { let mut v = mk(); v = Value::Null; drop(v) };
        "assign deep over deep": |mk| { let mut v = mk(); v = mk(); drop(v) };
        "mem::replace": |mk| { let mut v = mk(); drop(std::mem::replace(&mut v, mk())) };
        "mem::swap": |mk| { let (mut a, mut b) = (mk(), mk()); std::mem::swap(&mut a, &mut b); drop(a) };
        "the Array or Object itself": |mk| drop(holder(mk()));
        "pattern moved out": |mk| if let Value::Array(a) = mk() { drop(a) };
        "Option take": |mk| { let mut o = Some(mk()); drop(o.take()); o = Some(mk()); o.replace(mk()); let _ = o.insert(mk()); };
        "Result": |mk| { let r: Result<Value, Value> = Err(mk()); let _ = r.map_err(drop); };
        "Box": |mk| drop(Box::new(mk()));
        "Rc": |mk| { let r = Rc::new(mk()); let s = r.clone(); drop(r); drop(s) };
        "Arc": |mk| drop(Arc::new(mk()));
        "Rc slice": |mk| { let r: Rc<[Value]> = vec![mk(), mk()].into(); drop(r) };
        "RefCell": |mk| { let c = RefCell::new(mk()); *c.borrow_mut() = mk(); c.replace(mk()); };
        "tuple": |mk| drop((mk(), 1, mk()));
        "array of values": |mk| drop([mk(), mk(), mk()]);
        "boxed slice": |mk| drop(vec![mk(), mk()].into_boxed_slice());
        "Vec": |mk| drop(vec![mk(), mk()]);
        "Vec of Array": |mk| drop(vec![holder(mk()), holder(mk())]);
        "VecDeque": |mk| { let mut d = VecDeque::from([mk(), mk()]); d.pop_front(); d.push_back(mk()); d.truncate(1) };
        "LinkedList": |mk| drop(LinkedList::from([mk(), mk()]));
        "BTreeMap": |mk| { let mut m = BTreeMap::from([(1, mk()), (2, mk())]); m.insert(1, mk()); m.remove(&2); };
        "HashMap": |mk| { let mut m = HashMap::new(); m.insert(1, mk()); m.insert(1, mk()); m.insert(2, mk()); };
        "BinaryHeap": |mk| { struct O(#[allow(dead_code)] Value); impl PartialEq for O { fn eq(&self, _: &O) -> bool { true } } impl Eq for O {}
            impl PartialOrd for O { fn partial_cmp(&self, o: &O) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } } impl Ord for O { fn cmp(&self, _: &O) -> std::cmp::Ordering { std::cmp::Ordering::Equal } }
            drop(BinaryHeap::from([O(mk()), O(mk())])) };
        "closure": |mk| { let v = mk(); let f = move || matches!(v, Value::Null); f(); drop(f) };
        "another thread": |mk| { let v = mk(); std::thread::Builder::new().stack_size(STACK).spawn(move || drop(v)).unwrap().join().unwrap() };
        "thread-local": |mk| {
            thread_local!(static T: RefCell<Option<Value>> = const { RefCell::new(None) });
            let v = mk();
            std::thread::Builder::new().stack_size(STACK).spawn(move || T.with(|t| *t.borrow_mut() = Some(v))).unwrap().join().unwrap()
        };
        "unwinding": |mk| {
            let v = mk();
            let a = arr(mk, 1);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || { let _v = v; let _a = a; std::panic::resume_unwind(Box::new(1u8)); }));
            drop(r)
        };
        "panic payload": |mk| { let v = mk(); struct S(#[allow(dead_code)] Value); unsafe impl Send for S {}
            let s = S(v);
            drop(std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || std::panic::resume_unwind(Box::new(s))))) };

        "Array drop": |mk| drop(arr(mk, 3));
        "Array clear": |mk| { let mut a = arr(mk, 2); a.clear(); };
        "Array truncate": |mk| { let mut a = arr(mk, 3); a.truncate(1) };
        "Array pop": |mk| { let mut a = arr(mk, 2); drop(a.pop()) };
        "Array remove": |mk| { let mut a = arr(mk, 3); drop(a.remove(1)); drop(a.swap_remove(0)) };
        "Array overwrite": |mk| { let mut a = arr(mk, 2); a[0] = Value::Null; a[1] = mk() };
        "Array fill": |mk| { let mut a = arr(mk, 2); a.fill_with(|| Value::Null) };
        "Array retain": |mk| { let mut a = arr(mk, 3); let mut i = 0; a.retain(|_| { i += 1; i == 2 }) };
        "Array drain": |mk| { let mut a = arr(mk, 3); drop(a.drain(1..).next()); };
        "Array drain unused": |mk| { let mut a = arr(mk, 3); drop(a.drain(..2)); };
        "Array splice": |mk| { let mut a = arr(mk, 2); let v = mk(); drop(a.splice(0..1, [v, Value::Null])); };
        "Array split_off": |mk| { let mut a = arr(mk, 3); drop(a.split_off(1)) };
        "Array append": |mk| { let mut a = arr(mk, 1); let mut v = vec![mk(), mk()]; a.append(&mut v); drop(a) };
        "Array extend": |mk| { let mut a = arr(mk, 1); a.extend(arr(mk, 2)); };
        "Array resize": |mk| { let mut a = arr(mk, 2); a.resize(1, Value::Null); a.resize_with(3, || Value::Null); a.dedup_by(|_, _| true) };
        "Array mem::take": |mk| { let mut a = arr(mk, 2); drop(std::mem::take(&mut a)) };
        "Array contents replaced": |mk| { let mut a = arr(mk, 2); *a = vec![mk()]; };
        "Array contents taken": |mk| { let mut a = arr(mk, 2); drop(std::mem::take(&mut *a)) };
        "Array into_iter unused": |mk| drop(arr(mk, 2).into_iter());
        "Array into_iter one": |mk| { let mut i = arr(mk, 3).into_iter(); drop(i.next()); };
        "Array into_iter back": |mk| { let mut i = arr(mk, 3).into_iter(); let v = i.next_back(); drop(i); drop(v) };
        "Array into_iter all": |mk| for v in arr(mk, 2) { drop(v) };
        "Array into_iter break": |mk| for v in arr(mk, 3) { if !matches!(v, Value::Null) { break; } };
        "Array into_iter adaptors": |mk| { let _ = arr(mk, 3).into_iter().skip(1).take(1).last(); let _ = arr(mk, 2).into_iter().nth(1); let _ = arr(mk, 2).into_iter().count(); };
        "Array into_iter inner": |mk| { if let Value::Array(a) = mk() { for v in a { if let Value::Array(b) = v { drop(b.into_iter().next()); } } } };
        "Array collect": |mk| { let a: Array = arr(mk, 3).into_iter().collect(); let v: Vec<Value> = a.into_iter().rev().collect(); drop(v) };
        "Array clone_from": |mk| { let mut a = arr(mk, 2); a.clone_from(&Array::new()); let mut b = arr(mk, 1); let s: Array = [Value::Null, Value::Bool(true)].into_iter().collect(); b.clone_from(&s) };
        "Array into_boxed": |mk| { let mut a = arr(mk, 2); drop(std::mem::take(&mut *a).into_boxed_slice()) };
        "Array leaked back": |mk| { let b = Box::new(arr(mk, 1)); drop(unsafe { Box::from_raw(Box::into_raw(b)) }) };
        "Array abandoned collect": |mk| { let r: Result<Array, u8> = (0..3).map(|i| if i < 2 { Ok(mk()) } else { Err(1) }).collect(); drop(r) };

        "Object drop": |mk| drop(obj(mk, 3));
        "Object clear": |mk| { let mut o = obj(mk, 2); o.clear() };
        "Object duplicate": |mk| { let mut o = obj(mk, 2); drop(o.insert("k1".into(), mk())); o.insert("k1".into(), Value::Null); };
        "Object remove": |mk| { let mut o = obj(mk, 3); o.remove("k1"); drop(o.remove_entry("k0")) };
        "Object retain": |mk| { let mut o = obj(mk, 3); o.retain(|k, _| k == "k1") };
        "Object pop_first": |mk| { let mut o = obj(mk, 3); o.pop_first(); drop(o.pop_last()) };
        "Object entry": |mk| { let mut o = obj(mk, 2); *o.entry("k0".into()).or_insert(Value::Null) = mk(); o.entry("q".into()).or_insert_with(|| mk());
            if let std::collections::btree_map::Entry::Occupied(e) = o.entry("k1".into()) { drop(e.remove()) } };
        "Object get_mut": |mk| { let mut o = obj(mk, 2); *o.get_mut("k0").unwrap() = Value::Null; o.first_entry().unwrap().insert(mk()); };
        "Object split_off": |mk| { let mut o = obj(mk, 3); drop(o.split_off("k1")) };
        "Object append": |mk| { let mut o = obj(mk, 2); let mut b = std::mem::take(&mut *obj(mk, 3)); o.append(&mut b) };
        "Object mem::take": |mk| { let mut o = obj(mk, 2); drop(std::mem::take(&mut o)); o = obj(mk, 1); drop(std::mem::take(&mut *o)) };
        "Object contents replaced": |mk| { let mut o = obj(mk, 2); *o = BTreeMap::new(); *o = BTreeMap::from([("z".into(), mk())]) };
        "Object into_iter unused": |mk| drop(obj(mk, 2).into_iter());
        "Object into_iter one": |mk| { let mut i = obj(mk, 3).into_iter(); drop(i.next()) };
        "Object into_iter back": |mk| { let mut i = obj(mk, 3).into_iter(); let v = i.next_back(); drop(i); drop(v) };
        "Object into_iter all": |mk| for v in obj(mk, 2) { drop(v) };
        "Object into_iter break": |mk| for (_, v) in obj(mk, 3) { if !matches!(v, Value::Null) { break; } };
        "Object into_values": |mk| { let mut i = std::mem::take(&mut *obj(mk, 3)).into_values(); drop(i.next()) };
        "Object into_keys": |mk| { let mut i = std::mem::take(&mut *obj(mk, 3)).into_keys(); drop(i.next()) };
        "Object into_iter inner": |mk| { if let Value::Object(a) = mk() { for (_, v) in a { if let Value::Object(b) = v { drop(b.into_iter().next()); } } } };
        "Object collect": |mk| { let o: Object = obj(mk, 2).into_iter().chain([("k0".to_string(), mk())]).collect(); let v: Vec<(String, Value)> = o.into_iter().collect(); drop(v) };
        "Object extend": |mk| { let mut o = obj(mk, 2); o.extend(obj(mk, 3)) };
        "Object clone_from": |mk| { let mut o = obj(mk, 2); o.clone_from(&Object::new()); let mut b = obj(mk, 1); b.clone_from(&Object::from_iter([("k0".to_string(), Value::Null)])) };
        "Object values_mut": |mk| { let mut o = obj(mk, 2); for v in o.values_mut() { *v = Value::Null; } for (_, v) in &mut o { *v = mk(); } };
        "Object in Array in Object": |mk| { let mut a = Array::new(); a.push(Value::Object(obj(mk, 1))); let mut o = Object::new(); o.insert("a".into(), Value::Array(a)); drop(o) };
    }
}

fn case(ctx: &mut Ctx, fam: &'static str, what: impl FnOnce() -> String, way: Way, mk: Mk) {
    let what = what();
    if ctx.go(fam, format!("{}: {}", way.0, what).as_bytes()) {
        let m = mark();
        way.1(mk);
        let n = mark();
        ctx.check(m == n, || format!("{} blocks, {} bytes leaked", n.blocks - m.blocks, n.bytes - m.bytes));
        ctx.nontrivial();
    }
}

/// The stack used for discarding a value of some depth may not depend on that depth: compared
/// between a shallow and a deeper value, which shows far smaller growth than an overflow does.
fn grows(ctx: &mut Ctx, fam: &'static str, what: impl FnOnce() -> String, way: Way, mk: &dyn Fn(usize) -> Value, low: usize, high: usize) {
    let what = what();
    if ctx.go(fam, format!("{}: {}", way.0, what).as_bytes()) {
        let m = mark();
        let mut used = [0; 2];
        for (i, d) in [low, high].into_iter().enumerate() {
            let here = 0u8;
            let top = &here as *const u8 as usize;
            stack_watch(STACK);
            way.1(&|| mk(d));
            used[i] = top - stack_low();
        }
        stack_watch(0);
        let n = mark();
        ctx.check(m == n, || format!("{} blocks, {} bytes leaked", n.blocks - m.blocks, n.bytes - m.bytes));
        // A call takes at least 16 bytes of stack, and a recursion that frees anything takes more.
        ctx.check(used[1] <= used[0] + (high - low) * 14, || format!("{} bytes of stack for {} levels, {} for {}", used[0], low, used[1], high));
        ctx.nontrivial();
    }
}

/// `breadth` siblings at every level, the deep one at a chosen place among them.
const STYLES: usize = 9;
fn bushy(depth: usize, breadth: usize, place: usize, kind: usize, style: usize) -> Value {
    let mut v = Value::Null;
    for i in 0..depth {
        let object = kind == 1 || kind == 2 && i % 2 == 0;
        let mut deep = Some(v);
        let mut sib = |j: usize| {
            if j == place {
                deep.take().unwrap()
            } else {
                match if style < 6 { style } else { (j + style) % 3 + 3 } {
                    0 => Value::Null,
                    1 => Value::Bool(true),
                    2 => Value::String("x".into()),
                    3 => Value::Array((0..j % 4).map(|_| Value::String("x".into())).collect()),
                    4 => Value::Object(Object::from_iter([("y".to_string(), Value::Array(Array::new()))])),
                    _ => Value::Number(Number::U64(1)),
                }
            }
        };
        v = if object {
            Value::Object((0..breadth).map(|j| (format!("k{:04}", j), sib(j))).collect())
        } else {
            Value::Array((0..breadth).map(|j| sib(j)).collect())
        };
    }
    v
}
/// Every node of a level above `low` has `breadth` children: a full tree.
fn full(depth: usize, breadth: usize, object: bool) -> Value {
    if depth == 0 {
        return Value::String(String::from("leaf"));
    }
    if object {
        Value::Object((0..breadth).map(|j| (format!("{}", j), full(depth - 1, breadth, object))).collect())
    } else {
        Value::Array((0..breadth).map(|_| full(depth - 1, breadth, object)).collect())
    }
}
fn from_rv(t: &RV) -> Value {
    match t {
        RV::Arr(a) => Value::Array(a.iter().map(from_rv).collect()),
        RV::Obj(o) => Value::Object(o.iter().map(|e| (e.0.clone(), from_rv(&e.1))).collect()),
        RV::Str(s) => Value::String(s.clone()),
        _ => Value::Null,
    }
}

struct Sent<'a>(&'a mut Ctx);
unsafe impl Send for Sent<'_> {}

fn body(ctx: &mut Ctx) {
    run::QUIET.store(true, std::sync::atomic::Ordering::Relaxed);
    let s = Sent(ctx);
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(sc, move || {
                let s = s;
                inner(s.0)
            })
            .unwrap()
            .join()
            .unwrap();
    });
}

fn inner(ctx: &mut Ctx) {
    let ws = ways();
    ctx.set_max("ways", ws.len() as u64);
    // Warm up what std allocates once.
    for w in &ws {
        (w.1)(&|| Value::Null);
    }
    let deep = 5000;
    for len in 1..=ctx.pick(2, 3) {
        words(len, WRAPS.len(), &mut |w| {
            if !ctx.mine() {
                return;
            }
            for (i, way) in ws.iter().enumerate() {
                for d in [1, 2, 7, deep + len] {
                    // Longer words, deep: every ninth way, each way for some word.
                    if if d < deep { len > 2 } else { len > ctx.pick(1, 2) && (i + w.iter().sum::<usize>()) % 9 > 0 && i > 0 } {
                        continue;
                    }
                    case(ctx, "words", || format!("{:?} {}", w, d), *way, &|| deep::value(w, d, Value::Null));
                }
            }
        });
    }
    for d in lengths(ctx.pick(40, 200), ctx.pick(1 << 16, 1 << 18)) {
        for w in [[0, 0], [1, 1], [2, 5], [4, 3]] {
            if !ctx.mine() {
                continue;
            }
            let few = if d <= 200 { ws.len() } else { ctx.pick(1, 6) };
            for way in &ws[..few] {
                case(ctx, "depths", || format!("{:?} {}", w, d), *way, &|| deep::value(&w, d, Value::Null));
            }
        }
    }
    for kind in 0..3 {
        for breadth in [1, 2, 3, 4, 5, 8, 9, 16, 17, 32, 33, 64, 65, 100, 128, 129, 255, 256, 257, 1023, 1024, 1025] {
            for place in [0, 1, breadth / 2, breadth - 1] {
                for style in 0..STYLES {
                    if place >= breadth || place == 1 && breadth < 3 || breadth == 1 && style > 0 || !ctx.mine() {
                        continue;
                    }
                    let few = if breadth <= ctx.pick(17, 65) && [0, 2, 6].contains(&style) { ws.len() } else { 1 };
                    for way in &ws[..few] {
                        if breadth < 65 {
                            let d = (ctx.pick(6000, 100_000) / breadth).min(deep);
                            case(ctx, "bushy", || format!("kind {} breadth {} place {} style {} depth {}", kind, breadth, place, style, d), *way, &|| bushy(d, breadth, place, kind, style));
                        }
                        grows(ctx, "growth of the stack", || format!("kind {} breadth {} place {} style {}", kind, breadth, place, style), *way, &|d| bushy(d, breadth, place, kind, style), 8, 80);
                    }
                    // Every way that discards something one by one, for the wide ones.
                    for (i, way) in ws.iter().enumerate().skip(few) {
                        if (i + breadth + place + style) % ctx.pick(7, 2) == 0 && breadth <= 300 {
                            grows(ctx, "growth of the stack", || format!("kind {} breadth {} place {} style {}", kind, breadth, place, style), *way, &|d| bushy(d, breadth, place, kind, style), 8, 40);
                        }
                    }
                }
            }
        }
    }
    for b in lengths(ctx.pick(40, 300), ctx.pick(1 << 14, 1 << 17)) {
        for object in [false, true] {
            if !ctx.mine() {
                continue;
            }
            let few = if b <= 300 { ws.len() } else { 6 };
            for way in &ws[..few] {
                case(ctx, "wide", || format!("{} {}", object, b), *way, &|| full(1, b, object));
            }
            for depth in 2..=4 {
                if b.saturating_pow(depth) <= ctx.pick(20_000, 200_000) {
                    for way in &ws[..if b.saturating_pow(depth) <= 300 { ws.len() } else { 6 }] {
                        case(ctx, "full trees", || format!("{} breadth {} depth {}", object, b, depth), *way, &|| full(depth as usize, b, object));
                    }
                }
            }
        }
    }
    for t in trees(ctx.pick(5, 6), &[RV::Null, RV::Str("text".into())], &["a"]) {
        if ctx.mine() {
            for way in &ws {
                case(ctx, "all trees", || t.text(), *way, &|| from_rv(&t));
            }
        }
    }
    // Made by the parser: a vector or map grown by insertion, duplicates, abandoned parses.
    for len in 1..=2 {
        words(len, WRAPS.len(), &mut |w| {
            if !ctx.mine() {
                return;
            }
            let t = text(&WRAPS, w, deep + len);
            let doc = format!("{}7{}", t.opens, t.closes);
            for way in &ws[..if len == 1 { ws.len() } else { ctx.pick(6, ws.len()) }] {
                case(ctx, "parsed", || format!("{:?}", w), *way, &|| from_str(&doc).unwrap());
            }
            let part: Way = ("parse", |mk| drop(mk()));
            for (i, bad) in [
                format!("[{},{}", doc, doc),
                format!("{{\"a\":{},\"a\":{}}}", doc, doc),
                format!("{{\"a\":{},\"a\":{},\"a\":", doc, doc),
                format!("{{\"a\":{},\"b\"}}", doc),
                format!("[{},{}]]", doc, doc),
                format!("{}7{}", t.opens, &t.closes[..t.closes.len() - 1]),
                t.opens.clone(),
            ]
            .iter()
            .enumerate()
            {
                case(ctx, "abandoned", || format!("{} {:?}", i, w), part, &|| from_str(bad).unwrap_or(Value::Null));
                case(ctx, "abandoned Array", || format!("{} {:?}", i, w), part, &|| from_str::<Array>(bad).map(Value::Array).unwrap_or(Value::Null));
                case(ctx, "abandoned Object", || format!("{} {:?}", i, w), part, &|| from_str::<Object>(bad).map(Value::Object).unwrap_or(Value::Null));
            }
        });
    }
}

fn main() {
    run::main(
        Spec {
            property: "C13",
            level: "exploration",
            rule: "every way of discarding (84 ways) x every nesting word, breadth and small tree, on a thread with a 64 KiB stack holding values of 5000 levels and more; the checked allocator must be back at its level (no leak) and aborts on a double or foreign free.",
            assumptions: &[],
            stall: 60,
            mem_mb: 4096,
            bounds: "all words of up to 2 (3) of 8 wrappers; depths to 2^16 (2^18); breadths to 2^14 (2^17); all trees of up to 5 (6) nodes",
        },
        body,
    )
}
