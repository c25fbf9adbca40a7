//! C17: a panicking user callback leaves nothing broken, leaked or freed twice.

use mc_core::alloc::{mark, Checked, Mark};
use mc_core::gen::{lengths, trees, words};
use mc_core::run::{self, Ctx, Spec};
use mc_core::rv::RV;
use mc_probe::dec::{targets, Target, HB};
use mc_probe::serde_side::{node, Rs, Told, N, TK};
use mc_probe::{also_panic_at, unwinds, Act, Ev, Fault, Run};
use std::collections::{BTreeMap, HashMap};

#[global_allocator]
static A: Checked = Checked;

const NEVER: usize = usize::MAX;

/// What one run left behind, compared with the fault-free run.
fn judge<R: PartialEq>(base: &Run<R>, base_mem: Mark, failed: &[usize], k: usize, r: Run<R>, leak_ok: bool) -> Result<(), String> {
    let log = r.log;
    if let Some(b) = r.bad {
        return Err(b);
    }
    match r.result {
        Ok(_) => return Err("the panic does not reach the caller".into()),
        Err(p) => match p.downcast::<Fault>() {
            Ok(f) if f.0 == k => {}
            _ => return Err("another panic reaches the caller".into()),
        },
    }
    if log.len() <= k || log[..=k] != base.log[..=k] {
        return Err("the calls before the panic differ".into());
    }
    unwinds(&log, k, failed)?;
    drop(log);
    if leak_ok {
        return Ok(());
    }
    if r.alive != 0 {
        return Err(format!("{} values never dropped", r.alive));
    }
    let m = mark();
    if m != base_mem {
        return Err(format!("{} blocks, {} bytes leaked", m.blocks - base_mem.blocks, m.bytes - base_mem.bytes));
    }
    Ok(())
}

fn again<R: PartialEq>(base: &Run<R>, r: Run<R>) -> Result<(), String> {
    let same = match (&base.result, &r.result) {
        (Ok(a), Ok(b)) => a == b,
        _ => false,
    };
    if !same || r.log != base.log || r.bad.is_some() || r.alive != 0 {
        return Err("a later call behaves differently".into());
    }
    Ok(())
}

/// Every point of the run, one panic each.
fn all_points<R: PartialEq>(ctx: &mut Ctx, hash: bool, limit: usize, go: &dyn Fn(usize, Act) -> Run<R>) -> Result<usize, String> {
    let base = go(NEVER, Act::Nothing);
    if let Some(b) = &base.bad {
        return Err(b.clone());
    }
    if base.result.is_err() || base.alive != 0 {
        return Err("the run without a fault panics or leaks values".into());
    }
    let n = base.log.len();
    ctx.add("panics injected", 0);
    let mut before = mark();
    for k in 0..n {
        if n > limit && k > limit / 2 && k < n - limit / 2 {
            continue;
        }
        let r = go(k, Act::Panic);
        ctx.add("panics injected", 1);
        // A std HashMap itself leaks the remaining entries when an entry's drop panics.
        let leak_ok = hash && matches!(base.log[k], Ev::Dead(_));
        judge(&base, before, &[k], k, r, leak_ok).map_err(|m| format!("panic in call {} ({:?}): {}", k, base.log[k], m))?;
        if k % 4 == 0 && !leak_ok {
            again(&base, go(NEVER, Act::Nothing)).map_err(|m| format!("after a panic in call {} ({:?}): {}", k, base.log[k], m))?;
            let m = mark();
            if m != before {
                return Err(format!("after a panic in call {}: a later call leaks", k));
            }
        }
        if leak_ok {
            before = mark();
        }
    }
    Ok(n)
}

/// An error from one callback, then a panic in one of the drops that follow.
fn error_then_panic(ctx: &mut Ctx, t: &Target, doc: &str) -> Result<(), String> {
    let base = (t.go)(doc, NEVER, Act::Nothing);
    let n = base.log.len();
    for k in 0..n {
        if !(base.log[k].callback() || base.log[k] == Ev::Aux("convert")) {
            continue;
        }
        let e = (t.go)(doc, k, Act::Err);
        ctx.add("error-then-panic pairs", 0);
        let before = mark();
        for j in k + 1..e.log.len() {
            if t.hash && matches!(e.log[j], Ev::Dead(_)) {
                break;
            }
            also_panic_at(j);
            let r = (t.go)(doc, k, Act::Err);
            also_panic_at(NEVER);
            ctx.add("error-then-panic pairs", 1);
            let m = |m| format!("error from call {} ({:?}), then a panic in call {} ({:?}): {}", k, base.log[k], j, e.log[j], m);
            judge(&e, before, &[k, j], j, r, false).map_err(m)?;
        }
    }
    Ok(())
}

fn parse_case(ctx: &mut Ctx, fam: &'static str, ts: &[Target], doc: &str, limit: usize, pairs: bool) {
    for t in ts {
        if ctx.go(fam, format!("{}: {}", t.name, doc).as_bytes()) {
            let go = |k, a| (t.go)(doc, k, a);
            match all_points(ctx, t.hash, limit, &go) {
                Ok(n) if n > 2 => ctx.nontrivial(),
                Ok(_) => {}
                Err(m) => ctx.fail(m),
            }
            if pairs {
                if let Err(m) = error_then_panic(ctx, t, doc) {
                    ctx.fail(m);
                }
            }
        }
    }
}

fn ser_case(ctx: &mut Ctx, fam: &'static str, name: &str, x: &dyn Told, limit: usize) {
    if ctx.go(fam, name.as_bytes()) {
        let go = |k, a| mc_probe::serde_side::go(x, k, a);
        match all_points(ctx, false, limit, &go) {
            Ok(_) => ctx.nontrivial(),
            Err(m) => ctx.fail(m),
        }
    }
}

fn wrapped(ctx: &mut Ctx, t: &RV, mix: usize) {
    let kids: Vec<RV> = match t {
        RV::Arr(a) => a.clone(),
        RV::Obj(o) => o.iter().map(|e| e.1.clone()).collect(),
        _ => return,
    };
    let mut ids = 0;
    let mut mk = || -> Vec<N> { kids.iter().map(|k| node(k, mix, &mut ids)).collect() };
    let name = |w: &str| format!("{} {} {}", w, mix, t.text());
    ser_case(ctx, "serializing library types", &name("Vec"), &mk(), 80);
    let m: BTreeMap<TK, Option<Box<N>>> = mk().into_iter().enumerate().map(|(i, n)| (TK(format!("k{}", i)), Some(Box::new(n)))).collect();
    ser_case(ctx, "serializing library types", &name("BTreeMap"), &m, 80);
    let m: HashMap<TK, _, HB> = m.into_iter().collect();
    ser_case(ctx, "serializing library types", &name("HashMap"), &m, 80);
    let mut it = mk().into_iter();
    if let (Some(a), Some(b)) = (it.next(), it.next()) {
        let r = Rs { a, b: Some(&b), c: it.map(Box::new).collect() };
        ser_case(ctx, "serializing library types", &name("derived"), &[&r, &r], 80);
        ser_case(ctx, "serializing library types", &name("pair"), &(&r, BTreeMap::from([(TK("x".into()), &b)])), 80);
    }
}

fn body(ctx: &mut Ctx) {
    run::QUIET.store(true, std::sync::atomic::Ordering::Relaxed);
    let ts = targets();
    ctx.set_max("targets", ts.len() as u64);
    let toks = ["[", "]", "{", "}", ",", ":", "\"a\"", "1"];
    let full = ctx.pick(5, 6);
    let long = ctx.pick(7, 8);
    for len in 0..=long {
        words(len, toks.len(), &mut |w| {
            if len > 2 && w[0] != 0 && w[0] != 2 {
                return;
            }
            if !ctx.mine() {
                return;
            }
            let s: String = w.iter().map(|&i| toks[i]).collect();
            let n = if len <= full { ts.len() } else { 1 };
            parse_case(ctx, "all token words", &ts[..n], &s, 30, len <= full);
        });
    }
    let sc = [RV::Null, RV::Num("1".into()), RV::Str("x".into())];
    let cuts = ["]", "}", ",", "\"b\":", "[", "1"];
    for t in trees(ctx.pick(4, 5), &sc, &["a", "c"]) {
        if !ctx.mine() {
            continue;
        }
        let s = t.text();
        parse_case(ctx, "all trees", &ts, &s, 60, t.nodes() <= 4);
        if t.nodes() <= ctx.pick(3, 4) {
            for i in 1..s.len() {
                parse_case(ctx, "truncated", &ts, &s[..i], 30, true);
                for c in cuts {
                    parse_case(ctx, "inserted", &ts[..ctx.pick(12, 63)], &format!("{}{}{}", &s[..i], c, &s[i..]), 30, false);
                }
            }
        }
    }
    let vals = ["1", "null", "[2,null]", "{\"a\":3}", "{\"a\":1,\"c\":[5]}", "[[4],{\"\":5}]"];
    let names = ["a", "b", "c", "x"];
    for len in 0..=ctx.pick(3, 4) {
        words(len, names.len() * vals.len(), &mut |w| {
            if !ctx.mine() || (len == 4 && w.iter().any(|i| i % vals.len() > 2)) {
                return;
            }
            let s: Vec<String> = w.iter().map(|&i| format!("\"{}\":{}", names[i / vals.len()], vals[i % vals.len()])).collect();
            let s = format!("{{{}}}", s.join(","));
            // Repeated keys overwrite what the place holds already.
            let few: Vec<usize> = if len <= 2 { (0..ts.len()).collect() } else { vec![0, 6, 7, 28, 30, 38, 41, 42, 46, 50, 58, 59] };
            for i in few {
                if i < ts.len() {
                    parse_case(ctx, "entry sequences", &ts[i..i + 1], &s, 60, len <= 2);
                    if len <= 2 {
                        parse_case(ctx, "entry sequences, truncated", &ts[i..i + 1], &s[..s.len() - 1], 60, true);
                    }
                }
            }
        });
    }
    for n in lengths(ctx.pick(24, 80), ctx.pick(300, 2000)) {
        if !ctx.mine() {
            continue;
        }
        for t in [0usize, 1, 6, 7, 54, 55] {
            let t = &ts[t..t + 1];
            parse_case(ctx, "sizes", t, &format!("[{}]", vec!["1"; n].join(",")), 40, false);
            parse_case(ctx, "sizes", t, &format!("{{{}}}", (0..n).map(|i| format!("\"{}\":[{}]", i % 77, i)).collect::<Vec<_>>().join(",")), 40, false);
            parse_case(ctx, "sizes", t, &format!("{}0{}", "[".repeat(n), "]".repeat(n)), 40, false);
            parse_case(ctx, "sizes", t, &format!("{}0{}", "[1,{\"a\":".repeat(n), "]".repeat(n / 2)), 40, n <= 12);
        }
    }
    // Serialization.
    for t in trees(ctx.pick(5, 6), &sc[..2], &["k\n"]) {
        if ctx.mine() {
            for mix in [0, 31, 10, 21, 7] {
                ser_case(ctx, "serializing all trees", &format!("{} {}", mix, t.text()), &node(&t, mix, &mut 0), 80);
            }
            if t.nodes() <= 5 {
                wrapped(ctx, &t, 0);
                wrapped(ctx, &t, 31);
            }
        }
    }
    for n in lengths(ctx.pick(24, 80), ctx.pick(300, 1000)) {
        if ctx.mine() {
            let wide = RV::Arr((0..n).map(|_| RV::Obj(vec![("k".into(), RV::Null)])).collect());
            let mut deep = RV::Null;
            for i in 0..n {
                deep = if i % 2 == 0 { RV::Arr(vec![deep, RV::Null]) } else { RV::Obj(vec![("k".into(), deep)]) };
            }
            for mix in [0, 31] {
                ser_case(ctx, "serializing sizes", &format!("wide {} {}", n, mix), &node(&wide, mix, &mut 0), 60);
                if n <= 100 || mix == 0 {
                    ser_case(ctx, "serializing sizes", &format!("deep {} {}", n, mix), &node(&deep, mix, &mut 0), 60);
                }
            }
        }
    }
}

fn main() {
    run::main(
        Spec {
            property: "C17",
            level: "fault_enumeration",
            rule: "for every document x instrumented target and every serializable value: one run per call of user code (visitor, builder, key conversion, hash, comparison, default hasher, begin, next, key formatting, drop of a builder, stream, value or key), with a panic injected there; and an error from each callback followed by a panic in each later drop. The panic must reach the caller, only live builders and streams may be dropped afterwards, innermost first, every value exactly once, the checked allocator must be back at its level, and a later call must behave as before.",
            assumptions: &["std's HashMap leaks its other entries when the drop of one panics (excluded for drops of entries of hash maps)"],
            stall: 60,
            mem_mb: 4096,
            bounds: "all words of up to 5 (6) tokens into 63 targets, 7 (8) into one; trees of up to 4 (5) nodes, truncations and insertions; every point of runs with up to 30..80 points, the first and last ones of longer runs; sizes to 300 (2000)",
        },
        body,
    )
}
