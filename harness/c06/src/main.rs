//! C06: derived structs read fields by name, whatever else the object holds.

use mc_core::gen::{trees, words};
use mc_core::run::{self, Ctx, Spec};
use mc_core::rv::{self, quote, RV};
use mc_derives::*;
use mc_zoo::{judge, parse, Field};
use miniserde::Deserialize;
use std::collections::BTreeMap;

type Judge = fn(Option<&RV>, &str) -> Result<bool, String>;

fn j<T: Model + Deserialize>(v: Option<&RV>, doc: &str) -> Result<bool, String> {
    let got = parse::<T>(doc);
    judge(v, &got).map(|_| got.is_ok())
}
fn good_of<T: Make + miniserde::Serialize>() -> RV {
    mc_zoo::own(&T::make(&mut Chooser::new(0)))
}

struct Entry {
    name: &'static str,
    judge: Judge,
    nested: [(&'static str, Judge); 4],
    fields: Vec<Field>,
    variants: Vec<&'static str>,
    made: RV,
}

fn entry<T: Model + Def + Make + Deserialize + miniserde::Serialize>(name: &'static str) -> Entry {
    Entry {
        name,
        judge: j::<T>,
        nested: [("Option", j::<Option<T>>), ("Box", j::<Box<T>>), ("Vec", j::<Vec<T>>), ("BTreeMap", j::<BTreeMap<String, T>>)],
        fields: T::fields().unwrap_or_default(),
        variants: T::variants(),
        made: good_of::<T>(),
    }
}

macro_rules! list { ($([$t:ty])*) => { vec![$(entry::<$t>(stringify!($t))),*] } }

fn num(s: &str) -> RV {
    RV::Num(s.into())
}
fn st(s: &str) -> RV {
    RV::Str(s.into())
}
fn obj(e: &[(&str, RV)]) -> RV {
    RV::Obj(e.iter().map(|(k, v)| (k.to_string(), v.clone())).collect())
}

fn pool() -> Vec<RV> {
    let a = |v: &[RV]| RV::Arr(v.to_vec());
    let one = num("1");
    let two = obj(&[("a", num("4")), ("b", num("5"))]);
    let node = obj(&[("leaf", num("9")), ("kids", a(&[]))]);
    let three = obj(&[("id", num("1")), ("name", st("n")), ("tags", a(&[st("t")]))]);
    vec![
        num("1"), num("2"), num("300"), num("-1"), num("1.5"), num("70000"), RV::Null, RV::Bool(true), RV::Bool(false), st("s"), st("Red"), st("Green"), st("a\n\"é"), st(""),
        a(&[]), a(&[one.clone()]), a(&[num("7"), num("8")]), a(&[num("1"), num("2"), num("3")]), a(&[num("1"), RV::Bool(true)]), a(&[num("2"), RV::Bool(false)]), a(&[one.clone(), st("x")]), a(&[st("x")]), a(&[st("x"), st("y"), st("z")]), a(&[st("p"), st("q"), st("")]),
        a(&[RV::Null]), a(&[RV::Null, one.clone()]), a(&[RV::Null, RV::Null]), a(&[RV::Null, RV::Null, RV::Null]),
        obj(&[]), two.clone(), obj(&[("a", num("6"))]), obj(&[("z", num("6"))]), three.clone(), node.clone(), a(&[node.clone()]), a(&[two.clone()]), a(&[two.clone(), obj(&[("a", num("1"))])]),
        a(&[two.clone(), st("Blue")]), obj(&[("t", num("3"))]), obj(&[("t", RV::Null)]), obj(&[("q", two.clone())]),
    ]
}

fn run(ctx: &mut Ctx, e: &Entry, fam: &'static str, v: &RV, doc: &str) {
    if ctx.go(fam, format!("{} {}", e.name, doc).as_bytes()) {
        match (e.judge)(Some(v), doc) {
            Ok(a) => {
                if a {
                    ctx.nontrivial();
                    ctx.add("accepted", 1);
                }
            }
            Err(m) => ctx.fail(m),
        }
    }
}
fn text_run(ctx: &mut Ctx, e: &Entry, fam: &'static str, doc: &str) {
    if ctx.go(fam, format!("{} {}", e.name, doc).as_bytes()) {
        let v = match rv::read(doc) {
            Some((_, f)) if f.lone => return,
            Some((v, _)) => Some(v),
            None => None,
        };
        match (e.judge)(v.as_ref(), doc) {
            Ok(true) => ctx.nontrivial(),
            Ok(false) => {}
            Err(m) => ctx.fail(m),
        }
    }
}
fn entries(ctx: &mut Ctx, e: &Entry, fam: &'static str, es: &[(String, RV)]) {
    let v = RV::Obj(es.to_vec());
    let doc = v.text();
    run(ctx, e, fam, &v, &doc);
}

/// Keys close to the known ones, but different.
fn near(known: &[&str]) -> Vec<String> {
    let mut v: Vec<String> = Vec::new();
    let pick: Vec<&&str> = known.iter().take(6).chain(known.iter().skip(6).rev().take(2)).collect();
    for k in pick {
        v.push(format!("{}x", k));
        v.push(format!("{} ", k));
        v.push(format!(" {}", k));
        v.push(format!("_{}", k));
        v.push(format!("r#{}", k));
        v.push(format!("{}\u{0}", k));
        v.push(k.to_uppercase());
        v.push(k.to_lowercase());
        let mut cs: Vec<char> = k.chars().collect();
        if cs.pop().is_some() {
            v.push(cs.iter().collect());
        }
        v.push(k.chars().rev().collect());
        v.push(k.trim_start_matches("r#").to_string());
        v.push(k.replace('_', "-"));
        v.push(format!("{0}{0}", k));
    }
    v.extend(["", "zzz", "__out", "__a", "é", "\u{ffff}", "0"].map(String::from));
    v.sort();
    v.dedup();
    v.retain(|k| !known.contains(&k.as_str()));
    v
}

fn structs_of(ctx: &mut Ctx, e: &Entry) {
    let pool = pool();
    let n = e.fields.len();
    let known: Vec<&str> = e.fields.iter().map(|f| f.key).collect();
    let big = n > 20;
    // Per field: a few accepted values, a few unacceptable ones.
    let made = |k: &str| match &e.made {
        RV::Obj(o) => o.iter().find(|x| x.0 == k).map(|x| x.1.clone()),
        _ => None,
    };
    let mut good: Vec<Vec<RV>> = Vec::new();
    let mut bad: Vec<Vec<RV>> = Vec::new();
    for f in &e.fields {
        let mut g: Vec<RV> = pool.iter().filter(|v| (f.accepts)(v) == Tri::Yes).take(3).cloned().collect();
        if let Some(v) = made(f.key) {
            if (f.accepts)(&v) == Tri::Yes && !g.contains(&v) {
                g.insert(if g.is_empty() { 0 } else { 1 }, v);
            }
        }
        if g.is_empty() {
            ctx.add("fields_without_example", 1);
            return;
        }
        good.push(g);
        bad.push(pool.iter().filter(|v| (f.accepts)(v) == Tri::No).take(4).cloned().collect());
    }
    let base: Vec<(String, RV)> = (0..n).map(|i| (known[i].to_string(), good[i][i % good[i].len()].clone())).collect();
    let others = near(&known);

    // Orders.
    if ctx.mine() {
        entries(ctx, e, "order", &base);
        let rev: Vec<_> = base.iter().rev().cloned().collect();
        entries(ctx, e, "order", &rev);
        for r in 1..n {
            let mut b = base.clone();
            b.rotate_left(r);
            entries(ctx, e, "order", &b);
        }
    }
    if n <= 5 {
        words(n, n.max(1), &mut |w| {
            let mut s = w.to_vec();
            s.sort_unstable();
            s.dedup();
            if s.len() == n && ctx.mine() {
                entries(ctx, e, "order", &w.iter().map(|&i| base[i].clone()).collect::<Vec<_>>());
            }
        });
    }
    // Missing entries: every subset (or each single one and pair when there are many).
    if n <= ctx.pick(9, 12) {
        for m in 0u32..1 << n {
            if ctx.mine() {
                let es: Vec<_> = (0..n).filter(|i| m >> i & 1 == 1).map(|i| base[i].clone()).collect();
                entries(ctx, e, "subset", &es);
            }
        }
    } else {
        for i in 0..n {
            if !ctx.mine() {
                continue;
            }
            let mut b = base.clone();
            b.remove(i);
            entries(ctx, e, "subset", &b);
            entries(ctx, e, "subset", &base[..i]);
            entries(ctx, e, "subset", &base[i..i + 1]);
            if n <= 70 {
                for k in 0..i {
                    let mut b = b.clone();
                    b.remove(k);
                    entries(ctx, e, "subset", &b);
                }
            }
        }
    }
    // Only what is required.
    if ctx.mine() {
        let es: Vec<_> = (0..n).filter(|&i| !e.fields[i].absent_ok).map(|i| base[i].clone()).collect();
        entries(ctx, e, "required", &es);
    }
    // Every value in every field.
    for i in 0..n {
        if !ctx.mine() {
            continue;
        }
        for v in &pool {
            let mut b = base.clone();
            b[i].1 = v.clone();
            entries(ctx, e, "value", &b);
        }
    }
    // One more entry: known (a duplicate) or not, at every position, with every kind of value.
    let extra_values: Vec<RV> = if big { pool[..4].to_vec() } else { pool.clone() };
    for pos in 0..=n {
        if big && pos != 0 && pos != n && pos != n / 2 {
            continue;
        }
        for k in known.iter().map(|s| s.to_string()).chain(others.iter().cloned()) {
            if !ctx.mine() {
                continue;
            }
            for v in &extra_values {
                let mut b = base.clone();
                b.insert(pos, (k.clone(), v.clone()));
                entries(ctx, e, "extra", &b);
            }
        }
    }
    // Instead of a known entry, a near miss.
    for i in 0..n.min(12) {
        for k in &others {
            if ctx.mine() {
                let mut b = base.clone();
                b[i].0 = k.clone();
                entries(ctx, e, "near-miss", &b);
                b[i].1 = RV::Null;
                entries(ctx, e, "near-miss", &b);
            }
        }
    }
    // Two and three more entries for the same field, good and bad in every order.
    for i in 0..n {
        if big && i > 2 && i + 3 < n {
            continue;
        }
        if !ctx.mine() {
            continue;
        }
        let vals: Vec<RV> = good[i].iter().take(2).chain(bad[i].iter().take(2)).cloned().collect();
        for len in 1..=4 {
            words(len, vals.len(), &mut |w| {
                let mut b = base.clone();
                b.remove(i);
                for (c, &x) in w.iter().enumerate() {
                    // Spread through the object.
                    let at = (b.len() * c + i) / len.max(1) % (b.len() + 1);
                    b.insert(at, (known[i].to_string(), vals[x].clone()));
                }
                entries(ctx, e, "duplicates", &b);
            });
        }
    }
    // All short entry sequences for the small ones.
    if n <= 4 {
        let mut alpha: Vec<(String, RV)> = Vec::new();
        for i in 0..n {
            alpha.push((known[i].into(), good[i][0].clone()));
            if n <= 3 {
                alpha.push((known[i].into(), good[i][good[i].len() - 1].clone()));
            }
            if n <= 2 && !bad[i].is_empty() {
                alpha.push((known[i].into(), bad[i][0].clone()));
            }
        }
        alpha.push(("zzz".into(), num("1")));
        alpha.push((others.first().cloned().unwrap_or_else(|| "y".into()), RV::Arr(vec![obj(&[("k", RV::Null)])])));
        for len in 0..=ctx.pick(5, 6) {
            words(len, alpha.len(), &mut |w| {
                if ctx.mine() {
                    entries(ctx, e, "sequence", &w.iter().map(|&i| alpha[i].clone()).collect::<Vec<_>>());
                }
            });
        }
    }
    // Unknown content of every shape, and malformed content.
    let base_text = RV::Obj(base.clone()).text();
    let open = &base_text[..base_text.len() - 1];
    let sep = if n == 0 { "" } else { "," };
    let shapes = trees(if n <= 12 { ctx.pick(4, 5) } else { 2 }, &[num("1"), st("s"), RV::Null], &["a", known.first().copied().unwrap_or("q")]);
    for s in &shapes {
        if ctx.mine() {
            let d = format!("{}{}\"zzz\":{}}}", open, sep, s.text());
            text_run(ctx, e, "unknown-shape", &d);
            let d = format!("{{\"zzz\" : {}{}{}", s.text(), sep, &base_text[1..]);
            text_run(ctx, e, "unknown-shape", &d);
        }
    }
    let broken = [
        "[1,]", "[,1]", "[1 2]", "{\"a\":}", "{\"a\"}", "{a:1}", "{\"a\":1,}", "tru", "nul", "01", "1.", "-", "\"\\x\"", "\"\n\"", "\"\\ud800\"", "[", "{", "]", "}", "", "[}", "{]", "1e", "[[[]]", "{\"a\":{\"b\":[1,{\"c\":nan}]}}",
        "'s'", "+1", "NaN", "[1]]", "{}}", "\"a", "1 1", "0x1",
    ];
    if ctx.mine() {
        for b in broken {
            for k in ["zzz", "", known.first().copied().unwrap_or("q")] {
                text_run(ctx, e, "malformed", &format!("{{{}:{}{}{}", rvq(k), b, sep, &base_text[1..]));
                text_run(ctx, e, "malformed", &format!("{}{}{}:{}}}", open, sep, rvq(k), b));
            }
        }
    }
    // Truncations and edits of the whole text.
    let doc = format!("{}{}\"zzz\":[{{\"a\":\"b\\n\"}},-1.5e1]}}", open, sep);
    if doc.len() < ctx.pick(400, 4000) {
        for (i, c) in doc.char_indices() {
            if !ctx.mine() {
                continue;
            }
            text_run(ctx, e, "truncated", &doc[..i]);
            let rest = &doc[i + c.len_utf8()..];
            for x in ["", " ", ",", "}", "]", "\"", ":", "0", "{", "x", "\\"] {
                text_run(ctx, e, "edited", &format!("{}{}{}", &doc[..i], x, rest));
                text_run(ctx, e, "edited", &format!("{}{}{}", &doc[..i], x, &doc[i..]));
            }
        }
    }
    // Whitespace and escaped spellings of the keys.
    if ctx.mine() {
        let v = RV::Obj(base.clone());
        for w in [" ", "\n\t", "\r"] {
            let mut s = String::new();
            v.render(&mut s, &mut |_, o| o.push_str(w));
            run(ctx, e, "whitespace", &v, &s);
        }
        for how in 0..3 {
            let mut s = String::from("{");
            for (i, (k, x)) in base.iter().enumerate() {
                if i > 0 {
                    s.push(',');
                }
                s.push('"');
                for (c, u) in k.encode_utf16().enumerate() {
                    match char::from_u32(u as u32) {
                        Some(ch) if how > 0 && c % 2 == how - 1 && ch >= ' ' && ch != '"' && ch != '\\' => s.push(ch),
                        _ => s.push_str(&format!("\\u{:04x}", u)),
                    }
                }
                s.push_str("\":");
                s.push_str(&x.text());
            }
            s.push('}');
            run(ctx, e, "escaped-keys", &v, &s);
        }
    }
    // Many unknown or duplicate entries.
    for m in [1usize, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 1000, 4096] {
        if !ctx.mine() || (big && m > 300) {
            continue;
        }
        for at in [0, n / 2, n] {
            let mut b = base[..at].to_vec();
            for i in 0..m {
                b.push((format!("zz{}", i), pool[i % pool.len()].clone()));
            }
            b.extend_from_slice(&base[at..]);
            let v = RV::Obj(b);
            if ctx.go("many-unknown", format!("{} {} at {}", e.name, m, at).as_bytes()) {
                ctx.nontrivial();
                if let Err(x) = (e.judge)(Some(&v), &v.text()) {
                    ctx.fail(x);
                }
            }
        }
        for i in 0..n.min(4) {
            for last_good in [true, false] {
                let mut b = base.clone();
                for k in 0..m {
                    b.push((known[i].to_string(), good[i][k % good[i].len()].clone()));
                }
                if !last_good && !bad[i].is_empty() {
                    b.push((known[i].to_string(), bad[i][0].clone()));
                }
                let v = RV::Obj(b);
                if ctx.go("many-duplicates", format!("{} {} {} {}", e.name, i, m, last_good).as_bytes()) {
                    ctx.nontrivial();
                    if let Err(x) = (e.judge)(Some(&v), &v.text()) {
                        ctx.fail(x);
                    }
                }
            }
        }
    }
    // Non-objects, and the type inside other types.
    if ctx.mine() {
        for v in &pool {
            run(ctx, e, "other-kind", v, &v.text());
        }
        run(ctx, e, "other-kind", &RV::Arr(vec![RV::Obj(base.clone())]), &format!("[{}]", base_text));
        run(ctx, e, "other-kind", &RV::Arr(good.iter().map(|g| g[0].clone()).collect()), &RV::Arr(good.iter().map(|g| g[0].clone()).collect()).text());
        text_run(ctx, e, "trailing", &format!("{}{}", base_text, base_text));
        text_run(ctx, e, "trailing", &format!("{} x", base_text));
        let b = RV::Obj(base.clone());
        for (w, v) in [
            ("Option", b.clone()), ("Option", RV::Null), ("Box", b.clone()), ("Box", RV::Null), ("Vec", RV::Arr(vec![b.clone(), b.clone()])), ("Vec", RV::Arr(vec![b.clone(), RV::Obj(base[..n - n.min(1)].to_vec()), b.clone()])),
            ("Vec", RV::Arr(vec![RV::Null])), ("BTreeMap", RV::Obj(vec![("a".into(), b.clone()), ("b".into(), b.clone()), ("a".into(), b.clone())])), ("BTreeMap", b.clone()),
        ] {
            let f = e.nested.iter().find(|x| x.0 == w).unwrap().1;
            let d = v.text();
            if ctx.go("inside", format!("{} {} {}", w, e.name, d).as_bytes()) {
                ctx.nontrivial();
                if let Err(m) = f(Some(&v), &d) {
                    ctx.fail(m);
                }
            }
        }
    }
}

fn rvq(s: &str) -> String {
    let mut o = String::new();
    quote(s, &mut o);
    o
}

fn enums_of(ctx: &mut Ctx, e: &Entry) {
    let known = &e.variants;
    let k: Vec<&str> = known.clone();
    for (i, n) in known.iter().enumerate() {
        if !ctx.mine() {
            continue;
        }
        run(ctx, e, "variant", &st(n), &st(n).text());
        let esc: String = n.encode_utf16().map(|u| format!("\\u{:04X}", u)).collect();
        run(ctx, e, "variant", &st(n), &format!(" \"{}\"\n", esc));
        let idx = num(&i.to_string());
        run(ctx, e, "variant-number", &idx, &idx.text());
        let a = RV::Arr(vec![st(n)]);
        run(ctx, e, "variant-array", &a, &a.text());
        let o = RV::Obj(vec![(n.to_string(), RV::Null)]);
        run(ctx, e, "variant-object", &o, &o.text());
        text_run(ctx, e, "variant-broken", &format!("\"{}", n));
        text_run(ctx, e, "variant-broken", &format!("{}\"", n));
        text_run(ctx, e, "variant-broken", n);
        let v = RV::Arr(vec![st(n), st(known[0]), st(known[known.len() - 1])]);
        if ctx.go("variants", format!("{} {}", e.name, v.text()).as_bytes()) {
            ctx.nontrivial();
            if let Err(m) = (e.nested[2].1)(Some(&v), &v.text()) {
                ctx.fail(m);
            }
        }
    }
    for s in near(&k) {
        if ctx.mine() {
            run(ctx, e, "near-variant", &st(&s), &st(&s).text());
        }
    }
    // All short strings over the letters of the names.
    let mut letters: Vec<char> = known.iter().take(40).flat_map(|s| s.chars()).collect();
    letters.sort_unstable();
    letters.dedup();
    letters.truncate(14);
    for len in 0..=3 {
        if letters.is_empty() {
            break;
        }
        words(len, letters.len(), &mut |w| {
            if ctx.mine() {
                let s: String = w.iter().map(|&i| letters[i]).collect();
                run(ctx, e, "letters", &st(&s), &st(&s).text());
            }
        });
    }
    for v in pool() {
        if ctx.mine() {
            run(ctx, e, "other-kind", &v, &v.text());
        }
    }
    for (w, v) in [("Option", RV::Null), ("Option", st(known[0])), ("Box", st(known[0])), ("Box", RV::Null), ("BTreeMap", obj(&[("x", st(known[0])), ("y", st(known[known.len() / 2]))]))] {
        let f = e.nested.iter().find(|x| x.0 == w).unwrap().1;
        let d = v.text();
        if ctx.mine() && ctx.go("inside", format!("{} {} {}", w, e.name, d).as_bytes()) {
            ctx.nontrivial();
            if let Err(m) = f(Some(&v), &d) {
                ctx.fail(m);
            }
        }
    }
}

fn body(ctx: &mut Ctx) {
    let es: Vec<Entry> = enums!(list);
    for e in &es {
        enums_of(ctx, e);
    }
    let ss: Vec<Entry> = structs!(list);
    ctx.set_max("definitions", (ss.len() + es.len()) as u64);
    for e in &ss {
        structs_of(ctx, e);
    }
}

fn main() {
    run::main(
        Spec {
            property: "C06",
            level: "exploration",
            rule: "case = a derived definition and a document; the outcome is compared with a reference model generated from the field list; non-trivial = accepted",
            assumptions: &["definitions whose names collide after renaming are outside the property", "the zoo of definitions is fixed (about 90); C08 enumerates definitions"],
            stall: 60,
            mem_mb: 6144,
            bounds: "about 90 definitions of 0..257 fields or variants; per definition all orders (<=5 fields), all subsets of entries (<=9 (12) fields), every pool value in every field, one extra entry of every key and value at every position, all duplicate sequences of length <=4 per field, all entry sequences of length <=5 (6) for small ones, unknown content of every shape of <=4 (5) nodes, one-character edits",
        },
        body,
    );
}
