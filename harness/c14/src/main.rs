//! C14: visitors are driven by the document, and their errors end the parse.

use mc_core::gen::{lengths, trees, words};
use mc_core::run::{self, Ctx, Spec};
use mc_core::rv::RV;
use mc_probe::dec::{targets, Target};
use mc_probe::refdrv::{conforms, dictated};
use mc_probe::{unwinds, Act, Ev, EVERY};

const NEVER: usize = usize::MAX;

fn clean(r: &mc_probe::Run<bool>) -> Result<(), String> {
    if let Some(b) = &r.bad {
        return Err(b.clone());
    }
    if r.alive != 0 {
        return Err(format!("{} values never dropped", r.alive));
    }
    Ok(())
}

/// One document into one target, then with an error from each callback in turn.
fn one(ctx: &mut Ctx, t: &Target, doc: &str, faults: usize) -> Result<bool, String> {
    let r = (t.go)(doc, NEVER, Act::Nothing);
    clean(&r)?;
    let Ok(ok) = r.result else { return Err("panicked".into()) };
    let d = dictated(doc, &t.sh);
    conforms(&d, &r.log, ok)?;
    ctx.add("callbacks", r.log.len() as u64);
    if faults == 0 {
        return Ok(ok);
    }
    let n = r.log.len();
    for k in 0..n {
        if !(r.log[k].callback() || r.log[k] == Ev::Aux("convert")) {
            continue;
        }
        if n > faults && k > faults / 2 && k < n - faults / 2 {
            continue;
        }
        let e = (t.go)(doc, k, Act::Err);
        ctx.add("error injections", 1);
        let bad = |m: String| format!("error from call {} ({:?}): {}", k, r.log[k], m);
        clean(&e).map_err(bad)?;
        match e.result {
            Ok(false) => {}
            Ok(true) => return Err(bad("the parse succeeds".into())),
            Err(_) => return Err(bad("the parse panics".into())),
        }
        if e.log.len() <= k || e.log[..=k] != r.log[..=k] {
            return Err(bad("the calls before it differ".into()));
        }
        let log: Vec<Ev> = e.log.iter().filter(|x| x.dictated() || **x == Ev::Aux("convert")).cloned().collect();
        let k2 = e.log[..=k].iter().filter(|x| x.dictated() || **x == Ev::Aux("convert")).count() - 1;
        unwinds(&log, k2, &[k2]).map_err(bad)?;
    }
    Ok(ok)
}

fn run_on(ctx: &mut Ctx, fam: &'static str, ts: &[Target], doc: &str, faults: usize) {
    for t in ts {
        if ctx.go(fam, format!("{}: {}", t.name, doc).as_bytes()) {
            match one(ctx, t, doc, faults) {
                Ok(true) => ctx.nontrivial(),
                Ok(false) => {}
                Err(m) => ctx.fail(m),
            }
        }
    }
}

/// Splits a document into tokens.
fn tokens(s: &str) -> Vec<String> {
    let mut v: Vec<String> = Vec::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '[' | ']' | '{' | '}' | ',' | ':' => v.push(c.into()),
            '"' => {
                let mut t = String::from(c);
                while let Some(d) = it.next() {
                    t.push(d);
                    if d == '\\' {
                        t.push(it.next().unwrap());
                    } else if d == '"' {
                        break;
                    }
                }
                v.push(t);
            }
            _ => {
                let mut t = String::from(c);
                while it.peek().map_or(false, |d| !"[]{},:\"".contains(*d)) {
                    t.push(it.next().unwrap());
                }
                v.push(t);
            }
        }
    }
    v
}

fn body(ctx: &mut Ctx) {
    let ts = targets();
    ctx.set_max("targets", ts.len() as u64);
    let toks = ["[", "]", "{", "}", ",", ":", "\"a\"", "1", "null"];
    // All token words, into every target, and longer ones into the plain probe.
    let full = ctx.pick(6, 6);
    let long = ctx.pick(8, 9);
    for len in 0..=long {
        words(len, toks.len(), &mut |w| {
            // Only words that start a container survive beyond a few tokens.
            if len > full && w[0] != 0 && w[0] != 2 {
                return;
            }
            if !ctx.mine() {
                return;
            }
            let s: String = w.iter().map(|&i| toks[i]).collect();
            let n = if len <= full { if len < full { ts.len() } else { ctx.pick(12, 30) } } else { 1 };
            run_on(ctx, "all token words", &ts[..n], &s, 20);
        });
    }
    // Well-formed documents and every document one token away from one.
    let sc = [RV::Null, RV::Num("1".into()), RV::Str("x".into())];
    let n = ctx.pick(4, 5);
    let cuts = ["[", "]", "{", "}", ",", ":", "\"b\"", "-1", "true", "nul", "\"", "\\", "01"];
    for t in trees(n, &sc, &["a", "c"]) {
        if !ctx.mine() {
            continue;
        }
        let s = t.text();
        run_on(ctx, "all trees", &ts, &s, 40);
        if t.nodes() <= ctx.pick(3, 4) {
            let tk = tokens(&s);
            for i in 0..=tk.len() {
                let (a, b) = (tk[..i].concat(), tk[i..].concat());
                run_on(ctx, "truncated", &ts, &a, 40);
                for c in cuts {
                    run_on(ctx, "one token inserted", &ts, &format!("{}{}{}", a, c, b), 20);
                }
                if i < tk.len() {
                    let b = tk[i + 1..].concat();
                    run_on(ctx, "one token removed", &ts, &format!("{}{}", a, b), 40);
                    for c in cuts {
                        run_on(ctx, "one token replaced", &ts, &format!("{}{}{}", a, c, b), 20);
                    }
                }
            }
        }
    }
    // Documents made for the structs and maps.
    let vals = ["1", "null", "[]", "[2,null]", "{\"a\":3}", "\"s\\n\"", "{\"a\":1,\"c\":[]}", "[[4],{\"\":5}]"];
    let names = ["a", "b", "c", "x"];
    for len in 0..=ctx.pick(3, 4) {
        words(len, names.len() * vals.len(), &mut |w| {
            if !ctx.mine() {
                return;
            }
            if len == 4 && w.iter().any(|i| i % vals.len() > 3) {
                return;
            }
            let s: Vec<String> = w.iter().map(|&i| format!("\"{}\":{}", names[i / vals.len()], vals[i % vals.len()])).collect();
            let s = format!("{{{}}}", s.join(","));
            let some = if len <= 2 { ts.len() } else { 8 };
            run_on(ctx, "entry sequences", &ts[..some], &s, if len <= 2 { 60 } else { 12 });
        });
    }
    // Every scalar form, alone, in an array and under a key that looks like it.
    let mut scalars: Vec<String> = ["null", "true", "false", "\"\"", "\"\\u0000\"", "\"é\\ud83d\\ude00\"", "-0", "0", "-1", "255", "256", "1.5", "-0.0", "1e-400", "1e308", "1e309", "123456789012345678901234567890", "tru", "nul", "-", "1.", "1e", "\"\\q\"", "\"\\ud800\"", "\"\n\"", "+1", ".5"].iter().map(|s| s.to_string()).collect();
    for k in 0..64 {
        for d in 0..2u64 {
            scalars.push(((1u64 << k) - d).to_string());
            scalars.push(format!("-{}", (1u128 << k) - d as u128));
        }
    }
    for e in -330..=309 {
        scalars.push(format!("7.25e{}", e));
    }
    for s in &scalars {
        if ctx.mine() {
            for d in [s.clone(), format!("[{}]", s), format!(" [ {} , {} ] ", s, s), format!("{{\"a\":{}}}", s), format!("{{{}:{}}}", s, s), format!("[[],{{}},{},[{}]]", s, s)] {
                run_on(ctx, "scalars", &ts, &d, 20);
            }
        }
    }
    // Size and depth.
    for n in lengths(ctx.pick(40, 200), ctx.pick(2000, 20000)) {
        if !ctx.mine() {
            continue;
        }
        let few = &ts[..8];
        let wide = format!("[{}]", vec!["1"; n].join(","));
        run_on(ctx, "sizes", few, &wide, 8);
        let wide = format!("{{{}}}", (0..n).map(|i| format!("\"{}\":[{}]", i % 77, i)).collect::<Vec<_>>().join(","));
        run_on(ctx, "sizes", few, &wide, 8);
        if n <= 2000 {
            for (o, c) in [("[", "]"), ("{\"a\":", "}"), ("[1,{\"a\":", "}]"), ("{\"c\":[0,", "]}")] {
                run_on(ctx, "sizes", few, &format!("{}0{}", o.repeat(n), c.repeat(n)), 8);
                run_on(ctx, "sizes", few, &format!("{}0{}", o.repeat(n), c.repeat(n / 2)), 8);
            }
        }
    }
    let _ = EVERY;
}

fn main() {
    run::main(
        Spec {
            property: "C14",
            level: "fault_enumeration",
            rule: "for every document x target (63 instrumented target types): the recorded callbacks are compared with those a reference reader derives from the document; then the document is parsed again once per callback, with an error from that callback, and nothing but drops of the live builders, innermost first, may follow",
            assumptions: &["the reference reader of the document (checked against the pushdown recogniser in C01)"],
            stall: 60,
            mem_mb: 4096,
            bounds: "all words of up to 8 (9) tokens; all trees of up to 4 (5) nodes with all documents one token away from those of up to 3 (4); entry sequences of up to 3 (4); sizes to 2000 (20000); error injected at every callback of documents with at most the stated number of calls (20..60), else at the first and last ones",
        },
        body,
    )
}
