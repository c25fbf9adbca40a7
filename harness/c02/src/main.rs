//! C02: every string literal denotes exactly the text it spells, in every position.

use mc_core::gen::lengths;
use mc_core::run::{self, Ctx, Spec};
use mc_core::rv;
use mc_zoo::parse;
use miniserde::de::{Deserialize, Map, Seq, Visitor};
use miniserde::json::{Object, Value};
use miniserde::{make_place, Result};
use std::collections::{BTreeMap, HashMap};

/// Records every string and key argument it is given.
#[derive(Debug, Default, PartialEq)]
struct Seen(Vec<(char, Vec<u8>)>);

make_place!(Place);

impl Deserialize for Seen {
    fn begin(out: &mut Option<Self>) -> &mut dyn Visitor {
        Place::new(out)
    }
}

impl Visitor for Place<Seen> {
    fn nonnegative(&mut self, _: u64) -> Result<()> {
        self.out.get_or_insert_with(<Seen as Default>::default);
        Ok(())
    }
    fn string(&mut self, s: &str) -> Result<()> {
        self.out.get_or_insert_with(<Seen as Default>::default).0.push(('s', s.as_bytes().to_vec()));
        Ok(())
    }
    fn seq(&mut self) -> Result<Box<dyn Seq + '_>> {
        self.out.get_or_insert_with(<Seen as Default>::default);
        Ok(Box::new(Fwd(self)))
    }
    fn map(&mut self) -> Result<Box<dyn Map + '_>> {
        self.out.get_or_insert_with(<Seen as Default>::default);
        Ok(Box::new(Fwd(self)))
    }
}
struct Fwd<'a>(&'a mut Place<Seen>);
impl<'a> Seq for Fwd<'a> {
    fn element(&mut self) -> Result<&mut dyn Visitor> {
        Ok(&mut *self.0)
    }
    fn finish(&mut self) -> Result<()> {
        Ok(())
    }
}
impl<'a> Map for Fwd<'a> {
    fn key(&mut self, k: &str) -> Result<&mut dyn Visitor> {
        self.0.out.as_mut().unwrap().0.push(('k', k.as_bytes().to_vec()));
        Ok(&mut *self.0)
    }
    fn finish(&mut self) -> Result<()> {
        Ok(())
    }
}

#[derive(miniserde::Deserialize)]
struct Empty {}

/// What `"content"` denotes.
fn want(content: &str) -> Option<String> {
    match rv::read(&format!("\"{}\"", content)) {
        Some((rv::RV::Str(s), f)) if !f.lone => Some(s),
        _ => None,
    }
}

fn say<T: std::fmt::Debug>(place: &str, w: &Option<String>, g: T) -> String {
    let g: String = format!("{:?}", g).chars().take(200).collect();
    let w: String = format!("{:?}", w).chars().take(200).collect();
    format!("as {}: want {}, got {}", place, w, g)
}

fn root(ctx: &mut Ctx, content: &str, w: &Option<String>) {
    let doc = format!("\"{}\"", content);
    let g: Option<String> = parse(&doc).ok();
    ctx.check(g == *w, || say("root String", w, &g));
}

fn everywhere(ctx: &mut Ctx, content: &str, w: &Option<String>) {
    root(ctx, content, w);
    let lit = format!("\"{}\"", content);
    let wb = w.as_ref().map(|s| s.as_bytes().to_vec());
    let g = parse::<Value>(&lit).ok();
    ctx.check(
        match (&g, w) {
            (Some(Value::String(s)), Some(w)) => s == w,
            (None, None) => true,
            _ => false,
        },
        || say("root Value", w, &g),
    );
    let g = parse::<Vec<String>>(&format!("[{lit},{lit},\"p\"]")).ok();
    ctx.check(g == w.as_ref().map(|w| vec![w.clone(), w.clone(), "p".to_string()]), || say("elements", w, &g));
    let g = parse::<BTreeMap<String, String>>(&format!("{{\"p\":{lit}}}")).ok();
    ctx.check(g == w.as_ref().map(|w| BTreeMap::from([("p".to_string(), w.clone())])), || say("map value", w, &g));
    let g = parse::<BTreeMap<String, u8>>(&format!("{{{lit}:1}}")).ok();
    ctx.check(g == w.as_ref().map(|w| BTreeMap::from([(w.clone(), 1)])), || say("BTreeMap key", w, &g));
    let g = parse::<HashMap<String, String>>(&format!("{{{lit}: {lit} }}")).ok();
    ctx.check(g == w.as_ref().map(|w| HashMap::from([(w.clone(), w.clone())])), || say("HashMap key and value", w, &g));
    let g = parse::<Object>(&format!("{{{lit}\n:{lit}}}")).ok();
    ctx.check(
        match (&g, w) {
            (Some(o), Some(w)) => {
                o.len() == 1
                    && o.iter().all(|(k, v)| k == w && matches!(v, Value::String(s) if s == w))
            }
            (None, None) => true,
            _ => false,
        },
        || say("Object key and value", w, &g),
    );
    let g = parse::<Seen>(&format!("[{lit},{{{lit}:{lit},\"z\":1}},{lit}]")).ok();
    let ws = wb.map(|b| {
        Seen(vec![
            ('s', b.clone()),
            ('k', b.clone()),
            ('s', b.clone()),
            ('k', b"z".to_vec()),
            ('s', b),
        ])
    });
    ctx.check(g == ws, || say("visitor arguments", w, &g));
    let g = parse::<Empty>(&format!("{{\"x\":[{lit}],{lit}:{lit}}}")).is_ok();
    ctx.check(g == w.is_some(), || say("skipped content", w, g));
}

fn case(ctx: &mut Ctx, fam: &'static str, content: &str, wide: bool) {
    if ctx.go(fam, content.as_bytes()) {
        let w = want(content);
        if w.is_some() {
            ctx.nontrivial();
        }
        if wide {
            everywhere(ctx, content, &w);
        } else {
            root(ctx, content, &w);
        }
    }
}

fn escapes(ctx: &mut Ctx) {
    for u in 0..=0xffffu32 {
        if !ctx.mine() {
            continue;
        }
        let lo = format!("\\u{:04x}", u);
        let up = format!("\\u{:04X}", u);
        let mix1: String = lo.chars().enumerate().map(|(i, c)| if i > 1 && i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect();
        let mix2: String = lo.chars().enumerate().map(|(i, c)| if i > 1 && i % 2 == 1 { c.to_ascii_uppercase() } else { c }).collect();
        case(ctx, "u-escape", &lo, true);
        for v in [&up, &mix1, &mix2] {
            if *v != lo {
                case(ctx, "u-escape-case", v, false);
            }
        }
        case(ctx, "u-escape-ctx", &format!("a{}b", up), true);
        case(ctx, "u-escape-ctx", &format!("é{}{}😀", lo, up), false);
        case(ctx, "u-escape-ctx", &format!("{}\\n{}", lo, lo), false);
        case(ctx, "u-escape-ctx", &format!("{}0", lo), false);
        case(ctx, "u-escape-backslash", &format!("\\\\u{:04x}", u), false);
        case(ctx, "u-escape-upper-u", &format!("\\U{:04x}", u), false);
        // A high surrogate before it, a low one after it.
        for h in [0xd800u32, 0xd801, 0xd83d, 0xdbfe, 0xdbff] {
            case(ctx, "high-then", &format!("\\u{:04x}{}", h, lo), false);
            case(ctx, "high-then", &format!("x\\u{:04X}{}y", h, up), u % 64 == 0 || (0xd700..0xe100).contains(&u));
        }
        for l in [0xdc00u32, 0xdfff, 0xde00] {
            case(ctx, "then-low", &format!("{}\\u{:04x}", lo, l), false);
            case(ctx, "then-low", &format!("\\ud83d\\ude00{}\\u{:04x}", lo, l), false);
        }
    }
    for hi in 0xd800..0xdc00u32 {
        if !ctx.mine() {
            continue;
        }
        let mut all = String::new();
        for l in 0xdc00..0xe000u32 {
            let s = format!("\\u{:04x}\\u{:04x}", hi, l);
            case(ctx, "pair", &s, false);
            all.push_str(&s);
        }
        case(ctx, "pairs-run", &all, true);
        for l in [0xdc00, 0xdc01, 0xddff, 0xde00, 0xdffe, 0xdfff] {
            case(ctx, "pair-wide", &format!("\\u{:04X}\\u{:04x}", hi, l), true);
            case(ctx, "pair-wide", &format!("a\\u{:04x}\\u{:04X}é", hi, l), true);
        }
        let h = format!("\\u{:04x}", hi);
        for t in [
            "", "a", "\\", "\\n", "\\\\", "\\\"", "\\u", "\\ud", "\\udc", "\\udc0", "\\udc0g", "\\uDBFF", "\\u0000",
            "\\uffff", "\\ue000", "\\ud7ff", "\\ud800", "udc00", "\\xdc00", "\\Udc00", " \\udc00", "/udc00", "é",
            "\u{10ffff}", "\\/\\udc00", "\\udc00\\udc00", "\\ud800\\udc00", "\\udc00\\ud800", "uudc00", "\\\\udc00", "\u{7f}\\udc00",
        ] {
            case(ctx, "high-broken", &format!("{}{}", h, t), true);
            case(ctx, "high-broken", &format!("a{}{}b", h, t), false);
        }
    }
    for lo in 0xdc00..0xe000u32 {
        if ctx.mine() {
            for t in ["", "a", "\\n", "\\ud800", "\\udc00", "\\u0041", "é"] {
                case(ctx, "low-alone", &format!("\\u{:04x}{}", lo, t), true);
                case(ctx, "low-alone", &format!("{}\\u{:04X}", t, lo), true);
            }
        }
    }
}

const EXOTIC: &[u32] = &[
    0x80, 0xa0, 0xff, 0x100, 0x130, 0x131, 0x17f, 0x212a, 0x660, 0x661, 0x6f0, 0x966, 0x7ff, 0x800, 0x2028, 0x2029, 0xd7ff,
    0xe000, 0xfeff, 0xff10, 0xff19, 0xff21, 0xff26, 0xff41, 0xff46, 0xfffd, 0xffff, 0x10000, 0x1d7ce, 0x1f600, 0x10ffff,
    // Low bytes that collide with significant ASCII when truncated.
    0x122, 0x15c, 0x175, 0x16e, 0x130, 0x139, 0x141, 0x146, 0x161, 0x166, 0x2022, 0x205c, 0x2075, 0x1_0022, 0x1_005c,
];

fn bad_hex(ctx: &mut Ctx) {
    let chars: Vec<char> = (0u32..0x80).chain(EXOTIC.iter().copied()).filter_map(char::from_u32).collect();
    for pos in 0..4 {
        for &c in &chars {
            if !ctx.mine() {
                continue;
            }
            for base in ["0000", "0041", "ffff", "FFFF", "d83d", "dc00", "9999", "abcd", "EF09"] {
                let mut h: Vec<char> = base.chars().collect();
                h[pos] = c;
                let h: String = h.into_iter().collect();
                case(ctx, "hex-digit", &format!("\\u{}", h), true);
                case(ctx, "hex-digit", &format!("\\u{}\\ude00", h), false);
                case(ctx, "hex-digit", &format!("\\ud83d\\u{}", h), true);
                case(ctx, "hex-digit", &format!("a\\n\\u{}00", h), false);
                // Too short: cut by something else.
                let cut: String = base.chars().take(pos).chain([c]).collect();
                case(ctx, "hex-short", &format!("\\u{}", cut), true);
                case(ctx, "hex-short", &format!("\\ud83d\\u{}", cut), false);
            }
        }
    }
    // The character after a backslash.
    let more = (0u32..0x400).chain(EXOTIC.iter().copied()).filter_map(char::from_u32);
    for c in more {
        if !ctx.mine() {
            continue;
        }
        for pre in ["", "a", "é", "\\n", "\\\\", "\\u0041", "\\ud83d\\ude00"] {
            for post in ["", "a", "é", "\\n", "0041", "\\\\"] {
                case(ctx, "escape-char", &format!("{}\\{}{}", pre, c, post), pre.is_empty() || post.is_empty());
            }
        }
    }
    // Every way for the document to end inside a literal.
    for full in [
        "\"abc\"", "\"\\n\"", "\"\\u0041\"", "\"\\ud83d\\ude00\"", "\"a\\\"b\"", "\"\\\\\"", "\"é😀\"", "{\"a\\u0041\":\"\\n\"}", "[\"a\",\"b\\t\"]",
        "{\"\\ud83d\\ude00\" : \"\\\\\" }",
    ] {
        for (i, _) in full.char_indices() {
            if !ctx.mine() {
                continue;
            }
            let t = &full[..i];
            if ctx.go("truncated", t.as_bytes()) {
                ctx.check(parse::<Value>(t).is_err(), || "accepted".into());
                ctx.check(parse::<Seen>(t).is_err(), || "accepted by a visitor".into());
            }
            for tail in ["\"", "\\", "\\\"", "\\u", "\u{0}", "\u{0}\"", "a", "}"] {
                let d = format!("{}{}", t, tail);
                if ctx.go("truncated", d.as_bytes()) {
                    let w = rv::read_ok(&d).is_some();
                    ctx.check(parse::<Value>(&d).is_ok() == w, || format!("acceptance must be {}", w));
                }
            }
        }
    }
}

fn raw(ctx: &mut Ctx) {
    let step = 0x400;
    for lo in (0..0x110000u32).step_by(step) {
        if !ctx.mine() {
            continue;
        }
        let mut all = String::new();
        for c in (lo..lo + step as u32).filter_map(char::from_u32) {
            let s = c.to_string();
            let edge = c < '\u{900}' || (c as u32) & 0xff >= 0xfe || (c as u32) & 0xff == 0;
            case(ctx, "raw-char", &s, edge);
            case(ctx, "raw-char-ctx", &format!("\\t{}", s), edge);
            case(ctx, "raw-char-ctx", &format!("{}\\\"{}", s, s), false);
            if edge {
                case(ctx, "raw-char-ctx", &format!("abcdefg{}hijklmno", s), true);
            }
            if c >= ' ' && c != '"' && c != '\\' {
                all.push(c);
            }
        }
        case(ctx, "raw-run", &all, true);
    }
}

fn pieces(ctx: &mut Ctx) {
    let p = [
        "a", "é", "€", "😀", "\\n", "\\\"", "\\\\", "\\/", "\\u0041", "\\u00e9", "\\u20AC", "\\ud83d\\ude00", "\\u0000", "\u{7f}", "u",
        // These make it invalid:
        "\\ud83d", "\\ude00", "\n", "\\", "\\x",
    ];
    let wide = ctx.pick(3, 4);
    let deep = ctx.pick(5, 6);
    fn rec(ctx: &mut Ctx, p: &[&str], cur: &mut String, d: usize, deep: usize, wide: usize) {
        if d == 2 && !ctx.mine() {
            return;
        }
        if d >= 2 || ctx.worker == 0 {
            case(ctx, "pieces", cur, d <= wide);
        }
        if d < deep {
            for s in p {
                let l = cur.len();
                cur.push_str(s);
                rec(ctx, p, cur, d + 1, deep, wide);
                cur.truncate(l);
            }
        }
    }
    rec(ctx, &p, &mut String::new(), 0, deep, wide);
    // Longer sequences over fewer pieces.
    let p = ["ab", "é", "\\n", "\\u00e9", "\\ud83d\\ude00", "\\\\"];
    rec(ctx, &p, &mut String::new(), 0, ctx.pick(7, 9), 4);
}

fn runs(ctx: &mut Ctx) {
    let escs = ["\\n", "\\\"", "\\u0041", "\\u00e9", "\\u20ac", "\\ud83d\\ude00", "\\\\"];
    let fills = ["a", "é", "€", "😀"];
    let n = ctx.pick(40, 130);
    for l in 0..n {
        for m in 0..n {
            if !ctx.mine() {
                continue;
            }
            for (i, e) in escs.iter().enumerate() {
                let f = fills[(l + m + i) % 4];
                let g = fills[(l + i) % 4];
                case(ctx, "run-grid", &format!("{}{}{}", f.repeat(l), e, g.repeat(m)), i == (l * 3 + m) % 7);
            }
            case(ctx, "run-grid2", &format!("{}{}{}\\t", "a".repeat(l), "\\\"", "b".repeat(m)), false);
            case(ctx, "run-grid2", &format!("\\n{}{}{}", "a".repeat(l), "\\\\", "b".repeat(m)), false);
        }
    }
    for n in lengths(ctx.pick(300, 2100), ctx.pick(1 << 17, 1 << 22)) {
        if !ctx.mine() {
            continue;
        }
        let mut cs: Vec<(String, String)> = Vec::new();
        for f in fills {
            cs.push((format!("{} x {}", f, n), f.repeat(n)));
            for e in escs {
                cs.push((format!("{} x {} then {}", f, n, e), format!("{}{}", f.repeat(n), e)));
                cs.push((format!("{} then {} x {}", e, f, n), format!("{}{}", e, f.repeat(n))));
                cs.push((format!("{0} then {1} x {2} then {0}", e, f, n), format!("{0}{1}{0}", e, f.repeat(n))));
            }
            for b in ["\\ud83d", "\\udc00", "\n", "\\x", "\u{0}"] {
                cs.push((format!("{} x {} then bad {:?}", f, n, b), format!("{}{}", f.repeat(n), b)));
                cs.push((format!("bad {:?} then {} x {}", b, f, n), format!("{}{}", b, f.repeat(n))));
            }
        }
        for e in escs {
            cs.push((format!("{} x {}", e, n), e.repeat(n)));
            cs.push((format!("(a{}) x {}", e, n), format!("a{}", e).repeat(n)));
        }
        for (name, c) in cs {
            if c.len() > 1 << 20 && ctx.quick() {
                continue;
            }
            if ctx.go("run-length", name.as_bytes()) {
                let w = want(&c);
                if w.is_some() {
                    ctx.nontrivial();
                }
                root(ctx, &c, &w);
                if n <= 40 || n.is_power_of_two() {
                    everywhere(ctx, &c, &w);
                }
            }
        }
    }
}

/// Several literals in one document: what one leaves in the scratch space must not show in the next.
fn sequences(ctx: &mut Ctx) {
    let long = "x".repeat(90);
    let long_esc = format!("{}\\n{}", "y".repeat(70), "z".repeat(70));
    let lits: Vec<&str> = vec![
        "", "a", "plain text", "\\n", "a\\nb", "\\u00e9", "\\ud83d\\ude00", "é\\\"", &long, &long_esc, "\\\\", "tail\\t", "\\thead", "\\ud83d",
    ];
    let k = lits.len();
    let arr = |is: &[usize]| -> String { format!("[{}]", is.iter().map(|&i| format!("\"{}\"", lits[i])).collect::<Vec<_>>().join(",")) };
    let n = ctx.pick(4, 5);
    let mut idx = vec![0usize; n];
    loop {
        for len in 1..=n {
            // Enumerate shorter sequences once (the rest zero).
            if idx[len..].iter().any(|&i| i != 0) {
                continue;
            }
            if len < n && !(idx[len..].iter().all(|&i| i == 0)) {
                continue;
            }
            if !ctx.mine() {
                continue;
            }
            let is = &idx[..len];
            let doc = arr(is);
            if ctx.go("sequence", doc.as_bytes()) {
                let w: Option<Vec<String>> = is.iter().map(|&i| want(lits[i])).collect();
                if w.is_some() {
                    ctx.nontrivial();
                }
                let g = parse::<Vec<String>>(&doc).ok();
                ctx.check(g == w, || "elements differ".into());
                // As keys and values alternately.
                if len % 2 == 0 {
                    let body: Vec<String> = is.chunks(2).map(|c| format!("\"{}\":\"{}\"", lits[c[0]], lits[c[1]])).collect();
                    let doc = format!("{{{}}}", body.join(","));
                    let g = parse::<Seen>(&doc).ok();
                    let w = w.map(|v| {
                        Seen(v.into_iter().enumerate().map(|(i, s)| (if i % 2 == 0 { 'k' } else { 's' }, s.into_bytes())).collect())
                    });
                    ctx.check(g == w, || format!("visitor arguments differ for {}", doc));
                }
            }
        }
        // Next index vector.
        let mut i = n;
        loop {
            if i == 0 {
                return;
            }
            i -= 1;
            idx[i] += 1;
            if idx[i] < k {
                break;
            }
            idx[i] = 0;
        }
    }
}

fn body(ctx: &mut Ctx) {
    escapes(ctx);
    bad_hex(ctx);
    raw(ctx);
    pieces(ctx);
    runs(ctx);
    sequences(ctx);
}

fn main() {
    run::main(
        Spec {
            property: "C02",
            level: "exploration",
            rule: "case = the content between the quotes (run-length cases by name); each is parsed at the root into String and, in the wide families, as Value, array element, map value, BTreeMap/HashMap/Object key, visitor string()/key() argument and skipped content; non-trivial = the literal is valid",
            assumptions: &["the reference reader decodes to UTF-16 units and then to characters with core's decode_utf16, independently of the parser's way"],
            stall: 60,
            mem_mb: 6144,
            bounds: "all 65,536 \\u escapes, all 1,048,576 surrogate pairs, all 1,112,064 raw characters; all sequences of <=5 (6) of 20 pieces and <=7 (9) of 6; run lengths 0..300 (2100) and around 2^k to 2^17 (2^22); sequences of <=4 (5) of 14 literals in one document",
        },
        body,
    );
}
