//! C01: exactly the JSON language is accepted.
use mc_core::gen::lengths;
use mc_core::num::{num_ref, NumRef};
use mc_core::pda::{self, Cfg};
use mc_core::run::{self, Ctx, Spec};
use mc_core::rv;
use mc_zoo::parse;
use miniserde::json::Value;
use miniserde::Deserialize;

#[derive(Deserialize)]
struct Empty {}

/// What the property demands of a text: Some(must accept?) or None where it leaves it open.
fn want(text: &str, skip: bool) -> Option<bool> {
    match rv::read(text) {
        None => Some(false),
        Some((_, f)) if f.lone => (!skip).then_some(false),
        Some((v, _)) => {
            let mut open = false;
            let mut big = false;
            v.any_num(&mut |l| {
                match num_ref(l) {
                    NumRef::TooBig => big = true,
                    NumRef::Float { may_refuse: true, .. } => open = true,
                    _ => {}
                }
                false
            });
            if open || (big && skip) {
                None
            } else {
                Some(!big)
            }
        }
    }
}

fn judge(ctx: &mut Ctx, text: &str, fam: &'static str) {
    if !ctx.go(fam, text.as_bytes()) {
        return;
    }
    let w = want(text, false);
    let got = parse::<Value>(text).is_ok();
    if w == Some(true) {
        ctx.nontrivial();
    }
    if w.is_some_and(|w| w != got) {
        ctx.fail(verdict(got));
    }
}

fn judge_skip(ctx: &mut Ctx, text: &str, fam: &'static str) {
    // The text stands as the content of a field the struct does not know.
    let doc = format!("{{\"k\":{}}}", text);
    if !ctx.go(fam, doc.as_bytes()) {
        return;
    }
    let w = match rv::read(&doc) {
        Some((rv::RV::Obj(_), _)) => want(&doc, true),
        _ => Some(false),
    };
    let got = parse::<Empty>(&doc).is_ok();
    if w == Some(true) {
        ctx.nontrivial();
    }
    if w.is_some_and(|w| w != got) {
        ctx.fail(format!("as skipped content: {}", verdict(got)));
    }
}

fn verdict(got: bool) -> &'static str {
    if got {
        "accepted, must be refused"
    } else {
        "refused, must be accepted"
    }
}

/// Non-ASCII characters worth trying at every parser state.
const EXOTIC: &[char] = &[
    '\u{80}', '\u{85}', '\u{a0}', 'é', '\u{7ff}', '\u{800}', '\u{1680}', '\u{2000}', '\u{2028}', '\u{2029}', '\u{3000}',
    '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{fffd}', '\u{ffff}', '０', '１', '－', '．', '［', '｛', '“', '\u{10000}', '😀',
    '\u{10ffff}', '\u{131}', '\u{120}', '\u{222}', '\u{17f}', '\u{212a}', '\u{661}',
];

fn wmethod(ctx: &mut Ctx) {
    let depth = ctx.pick(2, 3);
    let sp = pda::space(depth);
    let (w, unsep) = sp.separators();
    let mut alpha: Vec<char> = (0..128u8).map(|b| b as char).collect();
    alpha.extend_from_slice(EXOTIC);
    ctx.set_max("states", sp.cfgs.len() as u64);
    ctx.set_max("transitions", (sp.cfgs.len() * alpha.len()) as u64);
    ctx.set_max("live_transitions_ascii", sp.transitions);
    ctx.set_max("separating_suffixes", w.len() as u64);
    ctx.set_max("unseparated_state_pairs", unsep as u64);
    let mut text = String::new();
    for i in 0..sp.cfgs.len() {
        for &c in &alpha {
            if !ctx.mine() {
                continue;
            }
            let mut n = sp.cfgs[i].clone();
            let live = n.step(c);
            for s in std::iter::once("").chain(w.iter().map(|s| s.as_str())) {
                text.clear();
                text.push_str(&sp.access[i]);
                text.push(c);
                text.push_str(s);
                // The machine and the reader are independent; they must agree.
                let m = live && n.run(s).map_or(false, |x| x.accepting());
                if m != rv::read_ok(&text).is_some() {
                    panic!("reference models disagree on {:?}", text);
                }
                judge(ctx, &text, "wmethod");
                ctx.add("traces_validated_against_impl", 1);
            }
            // The matching completion of where the transition leads, also in skipped position.
            let comp = if live {
                n_completion(&sp, &n)
            } else {
                sp.completion[i].clone()
            };
            text.clear();
            text.push_str(&sp.access[i]);
            text.push(c);
            text.push_str(&comp);
            judge(ctx, &text, "wmethod-completed");
            judge_skip(ctx, &text, "wmethod-skip");
            // One extra state: any character from a small alphabet in between.
            for d in "0 ,]}\":a\\-.e".chars() {
                text.truncate(sp.access[i].len() + c.len_utf8());
                text.push(d);
                let mut m2 = n.clone();
                let comp2 = if live && m2.step(d) { n_completion(&sp, &m2) } else { comp.clone() };
                text.push_str(&comp2);
                judge(ctx, &text, "wmethod-extra");
                judge_skip(ctx, &text, "wmethod-extra-skip");
            }
        }
        // Access strings themselves (truncations) and with trailing whitespace/garbage.
        if ctx.mine() {
            for t in ["", " ", "\n", "\u{0}", "x"] {
                let s = format!("{}{}", sp.access[i], t);
                judge(ctx, &s, "truncated");
                judge_skip(ctx, &s, "truncated-skip");
            }
        }
    }
}

/// Every character after tokens so long that an implementation may treat them in another way: digits beyond
/// the range of integers, exponents beyond any, long texts with half an escape, many elements, deep nesting.
fn pumped(ctx: &mut Ctx) {
    let depth = 1;
    let sp = pda::space(depth);
    let (w, _) = sp.separators();
    let mut alpha: Vec<char> = (0..128u8).map(|b| b as char).collect();
    alpha.extend_from_slice(EXOTIC);
    let w = if ctx.quick() { Vec::new() } else { w };
    let mut prefixes: Vec<String> = Vec::new();
    let n = |k: usize| "9".repeat(k);
    let z = |k: usize| "0".repeat(k);
    for sign in ["", "-"] {
        for int in ["0".to_string(), "5".to_string(), n(19), n(20), format!("1{}", z(30)), format!("1{}", z(400))] {
            for frac in ["".to_string(), ".".to_string(), ".0".to_string(), ".5".to_string(), format!(".{}", n(25)), format!(".{}", z(30)), format!(".{}7", z(400))] {
                for exp in ["".to_string(), "e".to_string(), "E+".to_string(), "e-".to_string(), "e5".to_string(), "e-5".to_string(), "e+400".to_string(), "e-400".to_string(), "e2147483647".to_string(), "e-2147483648".to_string(), "e-2147483650".to_string(), format!("e{}", n(15)), format!("e-{}", n(15)), format!("e+{}1", z(30)), format!("e-{}", z(30))] {
                    prefixes.push(format!("{}{}{}{}", sign, int, frac, exp));
                }
            }
        }
    }
    for text in ["a".repeat(15), "a".repeat(16), "a".repeat(200), "\\n".repeat(40), "é".repeat(40), "\\u00e9".repeat(20), format!("{}\\t{}", "a".repeat(64), "b".repeat(64)), "\\ud83d\\ude00".repeat(9)] {
        for half in ["", "\\", "\\u", "\\u0", "\\uD", "\\u00", "\\ud8", "\\uDC", "\\u00e", "\\ud83", "\\udc0", "\\ud83d", "\\ud83d\\", "\\ud83d\\u", "\\uDBFF\\uD", "\\ud83d\\ud", "\\ud83d\\ude", "\\ud83d\\ude0"] {
            prefixes.push(format!("\"{}{}", text, half));
            if half.len() < 3 {
                prefixes.push(format!("\"{}{}\"", text, half));
                prefixes.push(format!("{{\"{}{}", text, half));
                prefixes.push(format!("{{\"{}{}\"", text, half));
            }
        }
    }
    for n in [33usize, 300] {
        for many in ["[1,", "[[],", "{\"a\":1,", "{\"a\":[],", "[{\"a\":{}},"] {
            let (open, e) = many.split_at(1);
            let e = e.repeat(n);
            prefixes.push(format!("{}{}", open, e));
            prefixes.push(format!("{}{}", open, &e[..e.len() - 1]));
            prefixes.push(format!("{}{}1", open, e));
            prefixes.push(format!("{}{}\"b\"", open, e));
            prefixes.push(format!("{}{}\"b\":", open, e));
            prefixes.push(format!("{}{}\"b\":2", open, e));
        }
        for ws in [" ", "\n", "\r\t "] {
            for at in ["", "[", "[1", "[1,", "{", "{\"a\"", "{\"a\":", "{\"a\":1", "{\"a\":1,", "1", "[]", "true", "\"\""] {
                prefixes.push(format!("{}{}", at, ws.repeat(n)));
            }
        }
        for deep in ["[", "{\"a\":", "[1,{\"\\n\":"] {
            prefixes.push(deep.repeat(n));
            prefixes.push(format!("{}[]", deep.repeat(n)));
            prefixes.push(format!("{}1", deep.repeat(n)));
        }
    }
    let mut text = String::new();
    for p in &prefixes {
        let top = !p.starts_with(['[', '{', ' ', '\n', '\r']);
        for around in ["", "[", "{\"k\":"] {
            if !around.is_empty() && !top {
                continue;
            }
            if !ctx.mine() {
                continue;
            }
            let start = format!("{}{}", around, p);
            for &c in &alpha {
                for s in std::iter::once("").chain(w.iter().map(|s| s.as_str())) {
                    text.clear();
                    text.push_str(&start);
                    text.push(c);
                    text.push_str(s);
                    judge(ctx, &text, "pumped states");
                }
                for s in ["]", "}", "0]", "0}", "\"]", "\":0}", ":0}", "e1]", "}}", "0", "\"", "1:1}", " ]", ",1]", "\\n\"]"] {
                    text.truncate(start.len() + c.len_utf8());
                    text.push_str(s);
                    judge(ctx, &text, "pumped states");
                }
                for s in ["", "}", "0", "\"", "]", "}]"] {
                    text.truncate(start.len() + c.len_utf8());
                    text.push_str(s);
                    judge_skip(ctx, &text[..], "pumped states, skipped");
                }
            }
        }
    }
}

fn n_completion(sp: &pda::Space, n: &Cfg) -> String {
    // Configurations deeper than the space: close with the completion of the shallower one.
    let mut n = n.clone();
    let mut tail = String::new();
    loop {
        if let Some(&j) = sp.index.get(&n) {
            return format!("{}{}", sp.completion[j], tail);
        }
        // Drop the outermost container.
        let o = n.stack.remove(0);
        tail.insert(0, if o { '}' } else { ']' });
    }
}

/// All strings over an alphabet of tokens.
fn all_strings(ctx: &mut Ctx, toks: &[&str], len: usize, fam: &'static str, skip: bool) {
    let mut stack: Vec<usize> = Vec::new();
    let mut text = String::new();
    // Depth-first; sharded on the first two tokens.
    fn rec(
        ctx: &mut Ctx,
        toks: &[&str],
        left: usize,
        text: &mut String,
        cfg: Option<&Cfg>,
        fam: &'static str,
        skip: bool,
        stack: &mut Vec<usize>,
    ) {
        if stack.len() == 2 && !ctx.mine() {
            return;
        }
        if stack.len() >= 2 || ctx.worker == 0 {
            if ctx.go(fam, text.as_bytes()) {
                let acc = cfg.map_or(false, |c| c.accepting());
                let got = parse::<Value>(text).is_ok();
                if acc {
                    ctx.nontrivial();
                }
                if got != acc && want(text, false).map_or(false, |w| w != got) {
                    ctx.fail(verdict(got));
                }
            }
            if skip {
                judge_skip(ctx, text, "strings-skip");
            }
        }
        if left == 0 {
            return;
        }
        for (i, t) in toks.iter().enumerate() {
            let l = text.len();
            text.push_str(t);
            stack.push(i);
            let n = cfg.and_then(|c| c.run(t));
            rec(ctx, toks, left - 1, text, n.as_ref(), fam, skip, stack);
            stack.pop();
            text.truncate(l);
        }
    }
    rec(ctx, toks, len, &mut text, Some(&Cfg::default()), fam, skip, &mut stack);
}

/// Only prefixes some JSON text extends, to a greater length; each is also tried with every token
/// that kills it.
fn live_strings(ctx: &mut Ctx, toks: &[&str], len: usize, fam: &'static str) {
    fn rec(ctx: &mut Ctx, toks: &[&str], left: usize, text: &mut String, cfg: &Cfg, fam: &'static str, d: usize) {
        if d == 2 && !ctx.mine() {
            return;
        }
        for t in toks {
            let l = text.len();
            text.push_str(t);
            let n = cfg.run(t);
            if d >= 2 || ctx.worker == 0 {
                if ctx.go(fam, text.as_bytes()) {
                    let acc = n.as_ref().map_or(false, |c| c.accepting());
                    let got = parse::<Value>(text).is_ok();
                    if acc {
                        ctx.nontrivial();
                    }
                    if got != acc && want(text, false).map_or(false, |w| w != got) {
                        ctx.fail(verdict(got));
                    }
                }
            }
            if let (Some(n), true) = (&n, left > 1) {
                rec(ctx, toks, left - 1, text, n, fam, d + 1);
            }
            text.truncate(l);
        }
    }
    rec(ctx, toks, len, &mut String::new(), &Cfg::default(), fam, 0);
}

fn sweeps(ctx: &mut Ctx) {
    let dense = ctx.pick(300, 1200);
    let max = ctx.pick(1 << 17, 1 << 21);
    for n in lengths(dense, max) {
        if !ctx.mine() {
            continue;
        }
        let rep = |s: &str| s.repeat(n);
        let small = n <= dense;
        let mut docs: Vec<(String, String)> = Vec::new();
        let mut add = |name: &str, t: String| docs.push((format!("{} n={}", name, n), t));
        for ws in [" ", "\t", "\n", "\r", " \n\t\r"] {
            let w = rep(ws);
            add("ws lead", format!("{}1", w));
            add("ws trail", format!("[]{}", w));
            add("ws only", w.clone());
            add("ws arr", format!("[{}]", w));
            add("ws gaps", format!("[1{w},{w}2{w}]", w = w));
            add("ws obj", format!("{{{w}\"a\"{w}:{w}1{w},{w}\"b\":2{w}}}", w = w));
            add("ws then junk", format!("1{}x", w));
            add("ws before comma junk", format!("[1{},]", w));
        }
        add("string", format!("\"{}\"", rep("a")));
        add("string multibyte", format!("\"{}\"", rep("é😀")));
        add("string open", format!("\"{}", rep("a")));
        add("string ctrl end", format!("\"{}\u{1}\"", rep("a")));
        add("string ctrl start", format!("\"\u{1f}{}\"", rep("a")));
        add("string newline mid", format!("\"{a}\n{a}\"", a = rep("a")));
        add("string bad escape end", format!("\"{}\\q\"", rep("a")));
        add("string escapes", format!("\"{}\"", rep("\\n")));
        add("string u escapes", format!("\"{}\"", rep("\\u00e9")));
        add("string escapes open", format!("\"{}", rep("\\\"")));
        add("string pair", format!("\"{}\\ud83d\\ude00\"", rep("a")));
        add("string lone", format!("\"{}\\ud83d\"", rep("a")));
        add("string lone low", format!("\"{}\\udc00\"", rep("\\ud83d\\ude00")));
        add("key", format!("{{\"{}\":1}}", rep("k")));
        add("key escapes", format!("{{\"{}\":1}}", rep("\\t")));
        add("key ctrl", format!("{{\"{}\u{0}\":1}}", rep("k")));
        add("key no colon", format!("{{\"{}\" 1}}", rep("k")));
        add("digits", format!("1{}", rep("0")));
        add("digits neg", format!("-1{}", rep("7")));
        add("leading zeros", format!("{}1", rep("0")));
        add("frac", format!("1.{}", rep("3")));
        add("frac zeros", format!("0.{}1", rep("0")));
        add("frac then junk", format!("0.{}x", rep("0")));
        add("exp zeros", format!("1e{}1", rep("0")));
        add("exp neg", format!("1e-{}", rep("9")));
        add("exp zero sig", format!("0e{}", rep("9")));
        add("exp then dot", format!("1e{}.", rep("1")));
        add("digits then frac exp", format!("1{}.5e-{}", rep("0"), n));
        add("minus run", format!("{}1", rep("-")));
        add("array", format!("[{}1]", rep("1,")));
        add("array trailing comma", format!("[{}]", rep("1,")));
        add("array double comma", format!("[{}1,,1]", rep("1,")));
        add("array lead comma", format!("[,{}1]", rep("1,")));
        add("array no close", format!("[{}1", rep("1,")));
        add("array wrong close", format!("[{}1}}", rep("1,")));
        add("array extra close", format!("[{}1]]", rep("1,")));
        add("array of arrays", format!("[{}[]]", rep("[],")));
        add("array missing comma", format!("[{}1 1]", rep("1,")));
        add("object", format!("{{{}\"a\":1}}", rep("\"b\":2,")));
        add("object trailing comma", format!("{{{}}}", rep("\"b\":2,")));
        add("object no colon", format!("{{{}\"a\" 1}}", rep("\"b\":2,")));
        add("object bare key", format!("{{{}a:1}}", rep("\"b\":2,")));
        add("object no value", format!("{{{}\"a\":}}", rep("\"b\":2,")));
        add("object wrong close", format!("{{{}\"a\":1]", rep("\"b\":2,")));
        add("object no close", format!("{{{}\"a\":1", rep("\"b\":2,")));
        add("junk", rep("x"));
        add("two values", format!("{} 1", rep(" ")));
        add("many values", format!("1{}", rep(" 1")));
        add("closers", rep("]"));
        add("commas", rep(","));
        if small {
            for (o, c, w) in [("[", "]", "}"), ("{\"a\":", "}", "]"), ("[{\"a\":[", "]}]", "}}]"), ("[1,[", "]]", "]}")] {
                let u = |s: &str, k: usize| s.repeat(k);
                add(&format!("nest {}", o), format!("{}1{}", u(o, n), u(c, n)));
                add(&format!("nest unclosed {}", o), format!("{}1{}", u(o, n + 1), u(c, n)));
                add(&format!("nest overclosed {}", o), format!("{}1{}", u(o, n), u(c, n + 1)));
                add(&format!("nest wrong inner {}", o), format!("{}1{}{}", u(o, n + 1), w, u(c, n)));
                add(&format!("nest wrong outer {}", o), format!("{}1{}{}", u(o, n + 1), u(c, n), w));
                add(&format!("nest empty {}", o), format!("{}{}", u(o, n), u(c, n)));
                add(&format!("nest sibling {}", o), format!("[{}1{},{}2{}]", u(o, n), u(c, n), u(o, n), u(c, n)));
                add(&format!("nest close then value {}", o), format!("{}1{} 1", u(o, n), u(c, n)));
                add(&format!("nest missing comma {}", o), format!("[{}1{} {}1{}]", u(o, n), u(c, n), u(o, n), u(c, n)));
            }
        }
        for (name, t) in docs {
            if small || t.len() < 400_000 {
                judge_named(ctx, &name, &t);
            }
        }
    }
    // Deep nesting, iteratively known answers.
    for d in [5_000usize, 20_000, 100_000] {
        for (o, c, w) in [("[", "]", "}"), ("{\"a\":", "}", "]")] {
            for (kind, t, ok) in [
                ("closed", format!("{}1{}", o.repeat(d), c.repeat(d)), true),
                ("unclosed", format!("{}1{}", o.repeat(d), c.repeat(d - 1)), false),
                ("overclosed", format!("{}1{}", o.repeat(d), c.repeat(d + 1)), false),
                ("wrong", format!("{}1{}{}", o.repeat(d), c.repeat(d - 1), w), false),
                ("wrong inner", format!("{}1{}{}", o.repeat(d), w, c.repeat(d - 1)), false),
            ] {
                if ctx.mine() && ctx.go("deep", format!("{} {} depth={}", kind, o, d).as_bytes()) {
                    ctx.nontrivial();
                    let got = parse::<Value>(&t).is_ok();
                    ctx.check(got == ok, || verdict(got).to_string());
                    let got = parse::<Empty>(&format!("{{\"k\":{}}}", t)).is_ok();
                    ctx.check(got == ok, || format!("as skipped content: {}", verdict(got)));
                }
            }
        }
    }
}

fn judge_named(ctx: &mut Ctx, name: &str, t: &str) {
    // The machine decides long texts without recursion; numbers are judged by the reader.
    if ctx.go("sweep", name.as_bytes()) {
        let got = parse::<Value>(t).is_ok();
        let w = want(t, false);
        if pda::accepts(t) != rv::read_ok(t).is_some() {
            panic!("reference models disagree on {}", name);
        }
        if w == Some(true) {
            ctx.nontrivial();
        }
        if w.is_some_and(|w| w != got) {
            ctx.fail(verdict(got));
        }
    }
    if ctx.go("sweep-skip", name.as_bytes()) {
        let doc = format!("{{\"k\":{}}}", t);
        let w = match rv::read(&doc) {
            Some(_) => want(&doc, true),
            None => Some(false),
        };
        let got = parse::<Empty>(&doc).is_ok();
        if w.is_some_and(|w| w != got) {
            ctx.fail(format!("as skipped content: {}", verdict(got)));
        }
    }
}

/// Two independent deviations from a set of rich valid documents: every character replaced,
/// removed, duplicated or preceded by every character of an alphabet; then pairs on short ones.
fn mutations(ctx: &mut Ctx) {
    let seeds = [
        r#"{"a":[1,-2.5e+3,"x\n\u00e9\ud83d\ude00",null],"b":{"c":true,"":false}}"#,
        r#" [ { "k" : [ [ ] , { } ] } , 0 , -0 , 0.0 , 1E-2 , "" ] "#,
        r#"[[[[1],[2]],[[3],[4]]],{"x":{"y":{"z":[{}]}}}]"#,
        r#"{"a":18446744073709551616,"a":-9223372036854775809,"b":1e-400,"c":123456789012345678901234567890.123456789}"#,
        "\r\n\t[true , false,null\n]\t",
    ];
    let alpha: Vec<char> = " \n\u{0}\u{1f}\"\\/bu09-+.eE,:[]{}tfnasé\u{7f}".chars().collect();
    for s in seeds {
        let cs: Vec<char> = s.chars().collect();
        for i in 0..=cs.len() {
            if !ctx.mine() {
                continue;
            }
            let mut texts: Vec<String> = Vec::new();
            let pre: String = cs[..i].iter().collect();
            let post: String = cs[i..].iter().collect();
            texts.push(pre.clone());
            texts.push(post.clone());
            for &c in &alpha {
                texts.push(format!("{}{}{}", pre, c, post));
            }
            if i < cs.len() {
                let post1: String = cs[i + 1..].iter().collect();
                texts.push(format!("{}{}", pre, post1));
                texts.push(format!("{}{}{}", pre, cs[i], post));
                for &c in &alpha {
                    texts.push(format!("{}{}{}", pre, c, post1));
                }
                for j in i + 1..=cs.len() {
                    // Deletion of a whole span, and swap of two characters.
                    texts.push(format!("{}{}", pre, cs[j..].iter().collect::<String>()));
                    if j < cs.len() {
                        let mut x = cs.clone();
                        x.swap(i, j);
                        texts.push(x.into_iter().collect());
                    }
                }
            }
            for t in texts {
                judge(ctx, &t, "mutation");
                judge_skip(ctx, &t, "mutation-skip");
            }
        }
    }
    // All pairs of character substitutions on short documents.
    for s in [r#"{"a":[1]}"#, r#"["\u0041"]"#, "[-1.5e2]", "[1,{}]", "{\"\":\"\"}"] {
        let cs: Vec<char> = s.chars().collect();
        for i in 0..cs.len() {
            for j in i + 1..cs.len() {
                if !ctx.mine() {
                    continue;
                }
                for &c in &alpha {
                    for &d in &alpha {
                        let mut x = cs.clone();
                        x[i] = c;
                        x[j] = d;
                        let t: String = x.into_iter().collect();
                        judge(ctx, &t, "mutation2");
                    }
                }
            }
        }
    }
}

fn body(ctx: &mut Ctx) {
    let quick = ctx.quick();
    wmethod(ctx);
    pumped(ctx);
    mutations(ctx);
    sweeps(ctx);
    let chars = ["[", "]", "{", "}", "\"", ":", ",", "1", "0", "-", ".", "e", "+", " ", "\\", "u", "\n", "\u{0}", "a", "é"];
    all_strings(ctx, &chars, if quick { 5 } else { 6 }, "strings", false);
    let toks = ["[", "]", "{", "}", "\"a\"", ":", ",", "1", "null", " "];
    all_strings(ctx, &toks, if quick { 6 } else { 8 }, "tokens", false);
    all_strings(ctx, &toks, if quick { 5 } else { 6 }, "tokens-skip", true);
    let live = ["[", "]", "{", "}", "\"", ":", ",", "1", "0", "-", ".", "e", " ", "true"];
    live_strings(ctx, &live, if quick { 8 } else { 10 }, "live");
    let nums = ["0", "1", "9", "-", "+", ".", "e", "E", " ", ",", "]"];
    all_strings(ctx, &nums, if quick { 6 } else { 7 }, "number-strings", false);
    let lits = ["n", "u", "l", "t", "r", "e", "f", "a", "s", "N", " "];
    all_strings(ctx, &lits, if quick { 5 } else { 6 }, "word-strings", false);
}

fn main() {
    run::main(
        Spec {
            property: "C01",
            level: "model_checking",
            rule: "cases: access string of every recogniser state x every ASCII and 32 exotic characters x separating suffixes (W-method, plus one extra character), all strings over token alphabets to a length bound, every character after pumped tokens, mutations of rich documents, pumped documents; non-trivial = the text is valid JSON (the others must be refused)",
            assumptions: &["the two reference recognisers (pushdown machine, recursive-descent reader) are compared with each other on every W-method case", "beyond the bounds: no claim"],
            stall: 60,
            mem_mb: 6144,
            bounds: "all recogniser states with <=2 (thorough 3) open containers; all strings of <=5 (6) characters over 20, <=6 (8) tokens over 10, viable prefixes of <=8 (10) tokens; pumps to 2^17 (2^21) repeats",
        },
        body,
    );
}
