//! C04: an untyped value mirrors the structure of the text.

use mc_core::gen::{lengths, trees, words};
use mc_core::run::{self, Ctx, Spec};
use mc_core::rv::{self, RV};
use mc_zoo::{judge, parse, same_value};
use miniserde::json::{Array, Number, Object, Value};

fn num(s: &str) -> RV {
    RV::Num(s.into())
}
fn st(s: &str) -> RV {
    RV::Str(s.into())
}

fn one(ctx: &mut Ctx, v: &RV, doc: &str) {
    let got = parse::<Value>(doc);
    if let Err(m) = judge(Some(v), &got) {
        ctx.fail(format!("Value: {}; got {:?}; text {:?}", m, clip(&got), clip(doc)));
    }
}
fn clip<T: std::fmt::Debug>(x: T) -> String {
    format!("{:?}", x).chars().take(400).collect()
}

fn all_kinds(ctx: &mut Ctx, v: &RV, doc: &str) {
    one(ctx, v, doc);
    if let Err(m) = judge(Some(v), &parse::<Array>(doc)) {
        ctx.fail(format!("Array: {}; text {:?}", m, clip(doc)));
    }
    if let Err(m) = judge(Some(v), &parse::<Object>(doc)) {
        ctx.fail(format!("Object: {}; text {:?}", m, clip(doc)));
    }
    if let Err(m) = judge(Some(v), &parse::<Number>(doc)) {
        ctx.fail(format!("Number: {}; text {:?}", m, clip(doc)));
    }
}

/// Every string and key spelled with \u escapes.
fn respelled(v: &RV, how: u8) -> String {
    fn lit(s: &str, how: u8, out: &mut String) {
        out.push('"');
        for (i, u) in s.encode_utf16().enumerate() {
            let plain = (how == 2 && i % 2 == 0) || (how == 3 && i % 2 == 1);
            match char::from_u32(u as u32) {
                Some(c) if plain && c >= ' ' && c != '"' && c != '\\' => out.push(c),
                _ => out.push_str(&format!("\\u{:04X}", u)),
            }
        }
        out.push('"');
    }
    fn go(v: &RV, how: u8, out: &mut String) {
        match v {
            RV::Str(s) => lit(s, how, out),
            RV::Arr(a) => {
                out.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    go(x, how, out);
                }
                out.push(']');
            }
            RV::Obj(o) => {
                out.push('{');
                for (i, (k, x)) in o.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    lit(k, how, out);
                    out.push(':');
                    go(x, how, out);
                }
                out.push('}');
            }
            x => out.push_str(&x.text()),
        }
    }
    let mut s = String::new();
    go(v, how, &mut s);
    s
}

fn layouts(ctx: &mut Ctx, v: &RV, deep: bool) {
    let ws = [" ", "\t", "\n", "\r", " \r\n\t ", "        \n                "];
    let mut gaps = 0;
    let mut plain = String::new();
    v.render(&mut plain, &mut |n, _| gaps = n + 1);
    for w in ws {
        let mut s = String::new();
        v.render(&mut s, &mut |_, o| o.push_str(w));
        all_kinds(ctx, v, &s);
        for g in 0..gaps {
            let mut s = String::new();
            v.render(&mut s, &mut |n, o| {
                if n == g {
                    o.push_str(w)
                }
            });
            one(ctx, v, &s);
        }
    }
    if deep {
        for g in 0..gaps {
            for h in g + 1..gaps {
                for w in [" ", "\n"] {
                    let mut s = String::new();
                    v.render(&mut s, &mut |n, o| {
                        if n == g || n == h {
                            o.push_str(w)
                        }
                    });
                    one(ctx, v, &s);
                }
            }
        }
    }
    for how in 1..=3 {
        all_kinds(ctx, v, &respelled(v, how));
    }
}

fn shapes(ctx: &mut Ctx) {
    // All trees, several alphabets.
    let sets: Vec<(&'static str, usize, Vec<RV>, Vec<&str>)> = vec![
        ("shapes", ctx.pick(7, 8), vec![num("1")], vec!["a"]),
        ("shapes-keys", ctx.pick(5, 6), vec![num("1"), RV::Null], vec!["a", "b"]),
        ("shapes-scalars", ctx.pick(4, 5), vec![num("0"), num("-1"), num("1.5"), RV::Null, RV::Bool(true), RV::Bool(false), st(""), st("x\n")], vec!["", "é"]),
    ];
    for (fam, n, sc, ks) in sets {
        for v in trees(n, &sc, &ks) {
            if !ctx.mine() {
                continue;
            }
            let doc = v.text();
            if ctx.go(fam, doc.as_bytes()) {
                ctx.nontrivial();
                all_kinds(ctx, &v, &doc);
                if v.nodes() <= 4 {
                    layouts(ctx, &v, v.nodes() <= 3 || fam == "shapes-keys");
                } else {
                    let mut s = String::new();
                    v.render(&mut s, &mut |_, o| o.push_str(" \n"));
                    one(ctx, &v, &s);
                }
            }
        }
    }
    // Flat objects: every sequence of keys over 4 with duplicates, values numbered.
    for len in 0..=ctx.pick(7, 8) {
        words(len, 4, &mut |w| {
            if !ctx.mine() {
                return;
            }
            let v = RV::Obj(w.iter().enumerate().map(|(i, k)| (["a", "b", "", "ab"][*k].to_string(), num(&i.to_string()))).collect());
            let doc = v.text();
            if ctx.go("entries", doc.as_bytes()) {
                ctx.nontrivial();
                all_kinds(ctx, &v, &doc);
                one(ctx, &RV::Arr(vec![v.clone(), RV::Null]), &format!("[{},null]", doc));
            }
        });
    }
    // Duplicates of every kind replaced by every kind.
    let kinds = [
        RV::Null,
        RV::Bool(true),
        num("7"),
        num("-7"),
        num("7.5"),
        st("s"),
        st(""),
        RV::Arr(vec![]),
        RV::Arr(vec![num("1"), num("2")]),
        RV::Obj(vec![]),
        RV::Obj(vec![("a".into(), num("3")), ("z".into(), RV::Arr(vec![RV::Null]))]),
    ];
    for a in &kinds {
        for b in &kinds {
            for c in &kinds {
                if !ctx.mine() {
                    continue;
                }
                for keys in [["a", "a", "a"], ["a", "b", "a"], ["a", "a", "b"], ["b", "a", "a"], ["c", "b", "a"]] {
                    let v = RV::Obj(vec![(keys[0].into(), a.clone()), (keys[1].into(), b.clone()), (keys[2].into(), c.clone())]);
                    let doc = v.text();
                    if ctx.go("replaced", doc.as_bytes()) {
                        ctx.nontrivial();
                        all_kinds(ctx, &v, &doc);
                        layouts(ctx, &v, false);
                    }
                }
                let v = RV::Arr(vec![a.clone(), b.clone(), c.clone()]);
                let doc = v.text();
                if ctx.go("triples", doc.as_bytes()) {
                    ctx.nontrivial();
                    all_kinds(ctx, &v, &doc);
                    layouts(ctx, &v, false);
                }
            }
        }
    }
}

fn keys(ctx: &mut Ctx) {
    // Order and identity of keys: all orders of a set of close keys.
    let ks = ["", "a", "A", "a\u{0}", "aa", "b", "é", "e\u{301}", "😀", "\u{ffff}", "a\"", "a\\", "1", "01"];
    let n = ctx.pick(4, 5);
    words(n, ks.len(), &mut |w| {
        if !ctx.mine() {
            return;
        }
        let v = RV::Obj(w.iter().enumerate().map(|(i, k)| (ks[*k].to_string(), num(&i.to_string()))).collect());
        let doc = v.text();
        if ctx.go("close-keys", doc.as_bytes()) {
            ctx.nontrivial();
            all_kinds(ctx, &v, &doc);
            all_kinds(ctx, &v, &respelled(&v, 1));
            all_kinds(ctx, &v, &respelled(&v, 2));
        }
    });
}

fn sweeps(ctx: &mut Ctx) {
    for n in lengths(ctx.pick(600, 2200), ctx.pick(1 << 16, 1 << 20)) {
        if !ctx.mine() {
            continue;
        }
        let ix = |i: usize| num(&i.to_string());
        let mut vs: Vec<(&str, RV)> = vec![
            ("array of numbers", RV::Arr((0..n).map(ix).collect())),
            ("array of strings", RV::Arr((0..n).map(|i| st(&format!("s\n{}", i))).collect())),
            ("array of arrays", RV::Arr((0..n).map(|i| RV::Arr(vec![ix(i)])).collect())),
            ("array of empty", RV::Arr((0..n).map(|i| if i % 2 == 0 { RV::Arr(vec![]) } else { RV::Obj(vec![]) }).collect())),
            ("mixed array", RV::Arr((0..n).map(|i| match i % 5 { 0 => RV::Null, 1 => ix(i), 2 => st(&i.to_string()), 3 => RV::Bool(true), _ => RV::Obj(vec![("k".into(), ix(i))]) }).collect())),
            ("distinct keys up", RV::Obj((0..n).map(|i| (format!("k{:07}", i), ix(i))).collect())),
            ("distinct keys down", RV::Obj((0..n).map(|i| (format!("k{:07}", n - i), ix(i))).collect())),
            ("distinct keys scattered", RV::Obj((0..n).map(|i| (format!("{}", (i as u64).wrapping_mul(2654435761) % 1000003), ix(i))).collect())),
            ("one key repeated", RV::Obj((0..n).map(|i| ("k".to_string(), ix(i))).collect())),
            ("keys repeated cyclically", RV::Obj((0..n).map(|i| (format!("k{}", i % 13), ix(i))).collect())),
            ("first key again at the end", RV::Obj((0..n).map(|i| (format!("k{}", if i + 1 == n { 0 } else { i }), ix(i))).collect())),
            ("object of objects", RV::Obj((0..n).map(|i| (i.to_string(), RV::Obj(vec![("v".into(), ix(i))]))).collect())),
            ("long key", RV::Obj(vec![("k".repeat(n), ix(1)), (format!("{}x", "k".repeat(n)), ix(2)), ("k".repeat(n), ix(3))])),
            ("long string", RV::Arr(vec![st(&"é".repeat(n)), st(&format!("{}\"", "a".repeat(n))), ix(n)])),
        ];
        if n <= 1000 {
            // Depth with siblings before and after on every level.
            let mut v = ix(0);
            for i in 0..n.min(700) {
                v = match i % 3 {
                    0 => RV::Arr(vec![ix(i), v, RV::Null]),
                    1 => RV::Obj(vec![("a".into(), ix(i)), ("b".into(), v), ("c".into(), st("t"))]),
                    _ => RV::Arr(vec![v]),
                };
            }
            vs.push(("deep with siblings", v));
            let mut v = RV::Arr(vec![]);
            for _ in 0..n.min(700) {
                v = RV::Arr(vec![v]);
            }
            vs.push(("deep arrays", RV::Arr(vec![v.clone(), v])));
            let mut v = RV::Obj(vec![]);
            for i in 0..n.min(700) {
                v = RV::Obj(vec![(if i % 2 == 0 { "k" } else { "" }.into(), v)]);
            }
            vs.push(("deep objects", RV::Arr(vec![v.clone(), v])));
        }
        for (name, v) in vs {
            if ctx.go("sweep", format!("{} n={}", name, n).as_bytes()) {
                ctx.nontrivial();
                let doc = v.text();
                all_kinds(ctx, &v, &doc);
                if n <= 64 || n.is_power_of_two() && n <= 4096 {
                    let mut s = String::new();
                    v.render(&mut s, &mut |_, o| o.push_str("\n \t"));
                    one(ctx, &v, &s);
                    one(ctx, &v, &respelled(&v, 1));
                }
            }
        }
        // Whitespace runs of length n in each gap.
        if n <= 5000 || n.is_power_of_two() {
            let v = RV::Obj(vec![("a".into(), RV::Arr(vec![num("1"), RV::Obj(vec![]), RV::Arr(vec![])])), ("b".into(), st("x"))]);
            if ctx.go("whitespace", format!("n={}", n).as_bytes()) {
                ctx.nontrivial();
                let mut gaps = 0;
                v.render(&mut String::new(), &mut |n, _| gaps = n + 1);
                for w in [" ", "\n", "\t\r"] {
                    let w = w.repeat(n);
                    for g in 0..gaps {
                        let mut s = String::new();
                        v.render(&mut s, &mut |n, o| {
                            if n == g {
                                o.push_str(&w)
                            }
                        });
                        one(ctx, &v, &s);
                    }
                }
            }
        }
    }
}

/// Nesting words: every pattern of containers up to a length, repeated, with values around.
fn nestings(ctx: &mut Ctx) {
    // a level: its opening with a preceding sibling or not, its closing with a following sibling or not
    let lv: [(&str, &str); 8] = [
        ("[", "]"),
        ("[0,", "]"),
        ("[", ",1]"),
        ("[[],", ",{}]"),
        ("{\"k\":", "}"),
        ("{\"j\":0,\"k\":", "}"),
        ("{\"k\":", ",\"l\":1}"),
        ("{\"k\":2,\"k\":", ",\"j\":[{}]}"),
    ];
    for len in 1..=ctx.pick(5, 6) {
        words(len, lv.len(), &mut |w| {
            if !ctx.mine() {
                return;
            }
            for core in ["7", "[]", "{}", "\"s\""] {
                let mut doc = String::new();
                for &i in w {
                    doc.push_str(lv[i].0);
                }
                doc.push_str(core);
                for &i in w.iter().rev() {
                    doc.push_str(lv[i].1);
                }
                if ctx.go("nesting", doc.as_bytes()) {
                    ctx.nontrivial();
                    let v = rv::read_ok(&doc).unwrap();
                    one(ctx, &v, &doc);
                }
            }
        });
    }
    for len in 1..=3 {
        words(len, lv.len(), &mut |w| {
            if !ctx.mine() {
                return;
            }
            for reps in [7usize, 8, 9, 10, 11, 15, 16, 17, 21, 22, 31, 32, 33, 43, 63, 64, 65, 85, 86, 127, 128, 129, 170, 171, 255, 256, 257] {
                let mut doc = String::new();
                for i in 0..reps * len {
                    doc.push_str(lv[w[i % len]].0);
                }
                doc.push('7');
                for i in (0..reps * len).rev() {
                    doc.push_str(lv[w[i % len]].1);
                }
                let name: String = w.iter().map(|i| lv[*i].0).collect();
                if ctx.go("deep-nesting", format!("({})^{}", name, reps).as_bytes()) {
                    ctx.nontrivial();
                    let v = rv::read_ok(&doc).unwrap();
                    one(ctx, &v, &doc);
                }
            }
        });
    }
}

/// Two spellings of one document give equal values (the comparison is independent of the model).
fn equal_spellings(ctx: &mut Ctx) {
    for v in trees(4, &[num("1"), num("2.5"), st("a\n"), RV::Bool(true)], &["a", "b\""]) {
        if !ctx.mine() {
            continue;
        }
        let doc = v.text();
        if ctx.go("spellings", doc.as_bytes()) {
            ctx.nontrivial();
            let a = parse::<Value>(&doc).ok();
            let mut s = String::new();
            v.render(&mut s, &mut |_, o| o.push_str("\t\r\n "));
            for d in [s, respelled(&v, 1), respelled(&v, 3)] {
                let b = parse::<Value>(&d).ok();
                let same = matches!((&a, &b), (Some(a), Some(b)) if same_value(a, b, 0));
                ctx.check(same, || format!("{:?} differs from {:?}", d, doc));
            }
        }
    }
}

fn body(ctx: &mut Ctx) {
    shapes(ctx);
    keys(ctx);
    nestings(ctx);
    equal_spellings(ctx);
    sweeps(ctx);
}

fn main() {
    run::main(
        Spec {
            property: "C04",
            level: "exploration",
            rule: "case = a valid document (large ones by recipe); parsed as Value, Array, Object and Number and compared node by node with the reference tree; all whitespace placements and escaped spellings of small ones; non-trivial = every one (all are accepted documents)",
            assumptions: &["the reference tree comes from the enumerator, not from a parser, except in the nesting families (recursive-descent reader)"],
            stall: 60,
            mem_mb: 8192,
            bounds: "all trees of <=7 (8) nodes over one scalar and key, <=5 (6) over 2x2, <=4 (5) over 8x2; all key sequences of <=7 (8) over 4 keys and 4 (5) over 14; all nesting words of <=5 (6) of 8 level kinds, repeated to depth 768; sizes to 600 (2200) and 2^16 (2^20)",
        },
        body,
    );
}
