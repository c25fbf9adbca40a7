//! C21: the same with and without the std feature. Both builds of mc-c21side are loaded; every case
//! is given to both and the answers compared byte by byte.

use mc_core::gen::{trees, words};
use mc_core::run::{self, Ctx, Spec};
use mc_core::rv::RV;
use std::ffi::{c_char, c_int, c_void, CString};
use std::path::Path;

extern "C" {
    fn dlopen(p: *const c_char, flags: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, name: *const c_char) -> *mut c_void;
    fn dlerror() -> *const c_char;
}

type Out<'a> = &'a mut *const u8;
#[derive(Clone, Copy)]
struct Side {
    quiet: extern "C" fn() -> bool,
    types: extern "C" fn() -> usize,
    name: extern "C" fn(usize, Out) -> usize,
    parse: extern "C" fn(usize, usize, *const u8, usize, Out) -> usize,
    say: extern "C" fn(u32, *const u8, usize, Out) -> usize,
    made: extern "C" fn(usize, usize, Out) -> usize,
}
fn load(p: &Path) -> Side {
    unsafe {
        let c = CString::new(p.to_str().unwrap()).unwrap();
        let h = dlopen(c.as_ptr(), 2);
        if h.is_null() {
            eprintln!("{:?}", std::ffi::CStr::from_ptr(dlerror()));
            std::process::abort();
        }
        macro_rules! sym { ($n:literal) => { std::mem::transmute(dlsym(h, concat!($n, "\0").as_ptr() as *const c_char)) } }
        Side { quiet: sym!("c21_quiet"), types: sym!("c21_types"), name: sym!("c21_name"), parse: sym!("c21_parse"), say: sym!("c21_say"), made: sym!("c21_made") }
    }
}
impl Side {
    fn get(&self, f: impl FnOnce(Out) -> usize) -> &[u8] {
        let mut p = std::ptr::null();
        let n = f(&mut p);
        unsafe { std::slice::from_raw_parts(p, n) }
    }
}

struct Both {
    std: Side,
    no: Side,
    n: usize,
}

fn differ(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let at = |s: &[u8]| String::from_utf8_lossy(&s[i.saturating_sub(40).min(s.len())..(i + 60).min(s.len())]).into_owned();
    format!("with std: …{:?}, without: …{:?}", at(a), at(b))
}

impl Both {
    /// One document into the types from a to b.
    fn doc(&self, ctx: &mut Ctx, fam: &'static str, a: usize, b: usize, d: &str) {
        if !ctx.go(fam, d.as_bytes()) {
            return;
        }
        let (p, n) = (d.as_ptr(), d.len());
        let x = self.std.get(|o| (self.std.parse)(a, b, p, n, o));
        let y = self.no.get(|o| (self.no.parse)(a, b, p, n, o));
        if x.iter().any(|&c| c != b'!') {
            ctx.nontrivial();
        }
        if x != y {
            for i in a..b {
                let x = self.std.get(|o| (self.std.parse)(i, i + 1, p, n, o)).to_vec();
                let y = self.no.get(|o| (self.no.parse)(i, i + 1, p, n, o)).to_vec();
                if x != y {
                    let t = String::from_utf8_lossy(self.std.get(|o| (self.std.name)(i, o))).into_owned();
                    ctx.fail(format!("into {}: {}", t, differ(&x, &y)));
                    return;
                }
            }
            ctx.fail("differs, but not for a single type".to_string());
        }
    }
    fn say(&self, ctx: &mut Ctx, fam: &'static str, kind: u32, name: &dyn Fn() -> String, b: &[u8]) {
        if !ctx.go(fam, name().as_bytes()) {
            return;
        }
        let x = self.std.get(|o| (self.std.say)(kind, b.as_ptr(), b.len(), o));
        let y = self.no.get(|o| (self.no.say)(kind, b.as_ptr(), b.len(), o));
        if x != y {
            let m = differ(x, y);
            ctx.fail(m);
        }
        ctx.nontrivial();
    }
}

const PIECES: [&str; 32] = [
    "{", "}", "[", "]", ",", ":", "\"", "\\", "/", "-", "+", ".", "0", "1", "9", "e", "E", "u", "n", "null", "true", "false", " ", "\t", "\u{0}", "\u{7f}", "\u{e9}", "\u{2028}", "\u{1f600}", "\"a\":", "\"no\":", "\"skip\":",
];

fn strings(ctx: &mut Ctx, s: &Both) {
    for len in 0..=ctx.pick(4, 5) {
        words(len, PIECES.len(), &mut |w| {
            if len == 5 && ![0, 2, 6, 9].contains(&w[0]) || !ctx.mine() {
                return;
            }
            let d: String = w.iter().map(|&i| PIECES[i]).collect();
            let n = match len {
                0..=2 => s.n,
                3 => ctx.pick(11, s.n),
                4 => ctx.pick(3, 11),
                _ => 3,
            };
            s.doc(ctx, "all strings", 0, n, &d);
        });
    }
    let toks = ["{", "}", "[", "]", ",", ":", "\"\"", "\"a\"", "1", "-1", "1.5", "null", "true"];
    for len in 0..=ctx.pick(4, 5) {
        words(len, toks.len(), &mut |w| {
            if len > 3 && w[0] != 0 && w[0] != 2 || !ctx.mine() {
                return;
            }
            let d: String = w.iter().map(|&i| toks[i]).collect();
            s.doc(ctx, "all token words", 0, s.n, &d);
        });
    }
}

fn numbers(ctx: &mut Ctx, s: &Both) {
    let ch = ["0", "1", "9", "-", ".", "e", "E", "+"];
    for len in 1..=ctx.pick(6, 8) {
        words(len, ch.len(), &mut |w| {
            if !ctx.mine() {
                return;
            }
            let d: String = w.iter().map(|&i| ch[i]).collect();
            s.doc(ctx, "all number strings", 0, 9, &d);
        });
    }
    // Every magnitude.
    let mut sig: Vec<String> = Vec::new();
    for n in 1..=ctx.pick(26, 60) {
        for c in ["1", "9", "4", "12345678901234567890", "18446744073709551615", "18446744073709551616", "98765432109876543210987654321"] {
            let t: String = c.chars().cycle().take(n).collect();
            sig.push(t);
        }
    }
    sig.push("0".into());
    sig.sort();
    sig.dedup();
    let most = ctx.pick(330, 700);
    for m in &sig {
        for e in -most..=most {
            if !ctx.mine() {
                continue;
            }
            for d in [format!("{}e{}", m, e), format!("-{}E{:+}", m, e), format!("{}.{}e{}", &m[..1], &m[1..], e).replace(".e", ".0e"), format!("0.{}e{}", m, e)] {
                s.doc(ctx, "magnitudes", 0, 9, &d);
            }
        }
    }
    for z in [1usize, 2, 18, 19, 20, 21, 100, 306, 307, 308, 309, 310, 400, 1000, 70000] {
        if ctx.mine() {
            for m in ["1", "9", "18446744073709551615", "179769313486231570814527423731704356798070", "49406564584124654417656879286822137"] {
                for d in [format!("{}{}", m, "0".repeat(z)), format!("0.{}{}", "0".repeat(z), m), format!("{}{}.5", m, "0".repeat(z)), format!("{}{}e-{}", m, "0".repeat(z), z), format!("0.{}{}e{}", "0".repeat(z), m, z), format!("1.{}{}", "0".repeat(z), m), format!("1e{}{}", "0".repeat(z), m)] {
                    s.doc(ctx, "long numbers", 0, 9, &d);
                    s.doc(ctx, "long numbers", 0, 9, &format!("-{}", d));
                }
            }
        }
    }
    // Around the ends of every integer type.
    for k in 0..=70u32 {
        for d in -3i128..=3 {
            if ctx.mine() {
                let x = (1i128 << k) + d;
                for y in [x, -x] {
                    for t in [format!("{}", y), format!("{}.0", y), format!("{}e0", y), format!("[{}]", y), format!("{{\"{}\":{}}}", y, y)] {
                        s.doc(ctx, "ends of the integer types", 0, s.n, &t);
                    }
                }
            }
        }
    }
}

fn texts(ctx: &mut Ctx, s: &Both) {
    // Every code unit, and every pair over those where anything changes.
    for u in 0..0x10000u32 {
        if ctx.mine() {
            for d in [format!("\"\\u{:04x}\"", u), format!("\"\\u{:04X}x", u), format!("{{\"k\\u{:04x}\":1}}", u)] {
                s.doc(ctx, "escapes", 0, 5, &d);
            }
        }
    }
    let ends = [0, 1, 0x1f, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xd801, 0xdbff, 0xdc00, 0xdc01, 0xdfff, 0xe000, 0xffff];
    for a in ends {
        for b in ends {
            if ctx.mine() {
                for d in [format!("\"\\u{:04x}\\u{:04X}\"", a, b), format!("\"\\u{:04x}\\\\u{:04x}\"", a, b), format!("\"\\u{:04x}", a), format!("\"\\u{:04x}\\u{:04x}\\u{:04x}\"", a, b, a), format!("\"\\u{:04x}\\n\"", a)] {
                    s.doc(ctx, "pairs of escapes", 0, 5, &d);
                }
            }
        }
    }
    let mut m = 0u32;
    while m < 0x110000 {
        if let Some(c) = char::from_u32(m) {
            if ctx.mine() {
                let t = format!("a{}b", c);
                s.say(ctx, "texts of characters", 3, &|| format!("{:?}", t), t.as_bytes());
                s.doc(ctx, "characters", 0, 5, &format!("\"{}\"", t));
                s.doc(ctx, "characters", 0, 3, &format!("{{\"{}\":\"{}\"}}", t, c));
                if m < 0x3000 {
                    s.doc(ctx, "characters", 0, s.n, &c.to_string());
                    s.doc(ctx, "characters", 0, 3, &format!("\"\\{}\"", c));
                }
            }
        }
        m += if m < 0x3000 || m > 0xd700 && m < 0xe100 { 1 } else { ctx.pick(61, 1) };
    }
    let cs = ['a', '"', '\\', '\u{0}', '\u{8}', '\n', '\u{1f}', '\u{7f}', 'é', '\u{2028}', '😀'];
    for len in 0..=ctx.pick(4, 5) {
        words(len, cs.len(), &mut |w| {
            if ctx.mine() {
                let t: String = w.iter().map(|&i| cs[i]).collect();
                s.say(ctx, "texts of strings", 3, &|| format!("{:?}", t), t.as_bytes());
            }
        });
    }
    for len in [7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 127, 128, 255, 256, 1000, 4096, 65536] {
        if ctx.mine() {
            for c in cs {
                for at in [0, 1, len / 2, len - 1] {
                    let mut t: Vec<char> = vec!['x'; len];
                    t[at] = c;
                    let t: String = t.into_iter().collect();
                    s.say(ctx, "texts of long strings", 3, &|| format!("{} {} {:?}", len, at, c), t.as_bytes());
                    s.doc(ctx, "long strings", 0, 5, &format!("\"{}\"", t));
                }
                let t = c.to_string().repeat(len);
                s.say(ctx, "texts of long strings", 3, &|| format!("{} {:?}", len, c), t.as_bytes());
            }
            for e in ["\\n", "\\u00e9", "\\ud83d\\ude00", "\\/"] {
                s.doc(ctx, "long strings", 0, 5, &format!("\"{}\"", e.repeat(len)));
                s.doc(ctx, "long strings", 0, 5, &format!("[\"{}\",\"{}\"]", e.repeat(len), "x".repeat(len)));
            }
        }
    }
}

fn documents(ctx: &mut Ctx, s: &Both) {
    let sc = [RV::Null, RV::Num("1".into()), RV::Str("x\n".into()), RV::Num("-2.5".into()), RV::Bool(true)];
    // All of ASCII, and whatever some Unicode table might take for a space, a digit, a letter or
    // a quote.
    let odd: Vec<char> = (0..128u8).map(char::from).chain("\u{80}\u{85}\u{a0}²µ\u{ad}½àé÷ÿ\u{130}\u{131}\u{660}\u{6f0}\u{966}\u{1680}\u{180e}\u{2000}\u{2003}\u{200b}\u{200d}\u{2028}\u{2029}\u{202f}\u{205f}\u{2060}\u{3000}\u{feff}\u{ff10}\u{ff11}\u{ff45}\u{ff02}\u{201c}\u{201d}\u{2212}\u{2460}\u{fffd}\u{1d7ce}\u{10ffff}".chars()).collect();
    for t in trees(ctx.pick(3, 4), &sc, &["a"]) {
        if ctx.mine() {
            let d = t.text();
            for i in 0..=d.len() {
                if !d.is_char_boundary(i) {
                    continue;
                }
                for c in &odd {
                    if ctx.quick() && t.nodes() > 2 && *c >= '!' && *c < '\u{7f}' {
                        continue;
                    }
                    s.doc(ctx, "any character put in", 0, 11, &format!("{}{}{}", &d[..i], c, &d[i..]));
                    if i < d.len() && t.nodes() < 3 {
                        s.doc(ctx, "any character put in", 0, s.n, &format!("{}{}{}{}", &d[..i], c, c, &d[i..]));
                        s.doc(ctx, "any character instead", 0, s.n, &format!("{}{}{}", &d[..i], c, &d[i + 1..]));
                        s.doc(ctx, "any character, the end", 0, s.n, &format!("{}{}", &d[..i], c));
                    }
                }
            }
        }
    }
    for t in trees(ctx.pick(4, 5), &sc[..ctx.pick(3, 4)], &["a", "skip", "no"]) {
        if ctx.mine() {
            let d = t.text();
            s.doc(ctx, "all trees", 0, s.n, &d);
            if t.nodes() <= ctx.pick(3, 4) {
                for i in 1..d.len() {
                    s.doc(ctx, "truncated", 0, s.n, &d[..i]);
                    s.doc(ctx, "trailing", 0, 11, &format!("{}{}", d, &d[..i]));
                    for c in ["\"", "}", "]", ",", ":", "1", " ", "\u{0}", "x"] {
                        s.doc(ctx, "changed", 0, 11, &format!("{}{}{}", &d[..i], c, &d[i..]));
                        s.doc(ctx, "changed", 0, 11, &format!("{}{}{}", &d[..i], c, &d[i + 1..]));
                    }
                }
            }
        }
    }
    for n in ctx.pick(&[9usize, 40, 300, 3000, 50_000][..], &[9, 40, 300, 3000, 50_000, 1_000_000]) {
        for (u, c, v) in [("[", "0", "]"), ("{\"a\":", "0", "}"), ("[1,{\"a\":", "[]", "}]"), ("{\"skip\":[", "1", "]}"), ("{\"b\":1,\"a\":[", "\"x\\n\"", "]}")] {
            if ctx.mine() {
                let name = |w: &str| format!("{} {}^{} {}", w, u, n, c);
                for (w, d) in [("closed", format!("{}{}{}", u.repeat(*n), c, v.repeat(*n))), ("open", format!("{}{}", u.repeat(*n), c)), ("broken", format!("{}{}!", u.repeat(*n), c))] {
                    // On a small stack of its own; what is compared is told without recursion for
                    // the deep ones (type 1 writes down the calls, type 2 skips everything).
                    if !ctx.go("nesting", name(w).as_bytes()) {
                        continue;
                    }
                    let (a, b) = if *n > 40 { (1, 3) } else { (0, s.n) };
                    let (x, y) = std::thread::scope(|t| {
                        std::thread::Builder::new()
                            .stack_size(if *n > 40 { 256 << 10 } else { 16 << 20 })
                            .spawn_scoped(t, || {
                                let x = s.std.get(|o| (s.std.parse)(a, b, d.as_ptr(), d.len(), o)).to_vec();
                                let y = s.no.get(|o| (s.no.parse)(a, b, d.as_ptr(), d.len(), o)).to_vec();
                                (x, y)
                            })
                            .unwrap()
                            .join()
                            .unwrap()
                    });
                    if x != y {
                        ctx.fail(differ(&x, &y));
                    }
                    ctx.nontrivial();
                }
            }
        }
        if ctx.mine() && *n <= 50_000 {
            for d in [format!("[{}0]", "0,".repeat(*n)), format!("{{{}\"a\":0}}", "\"a\":1,".repeat(*n)), format!("{{{}}}", (0..*n).map(|i| format!("\"k{}\":{}", i * 7919 % n, i)).collect::<Vec<_>>().join(",")), format!("[{}[]]", "[[]],".repeat(*n)), format!("{}1{}", " ".repeat(*n), "\n".repeat(*n))] {
                s.doc(ctx, "breadth", 0, s.n, &d);
            }
        }
    }
}

fn values(ctx: &mut Ctx, s: &Both) {
    let mut put = |x: u64, k: u32| {
        if ctx.mine() {
            s.say(ctx, ["texts of integers", "texts of doubles", "texts of singles"][k as usize], k, &|| format!("{:#x}", x), &x.to_le_bytes());
        }
    };
    for k in 0..64u32 {
        for j in 0..=k {
            for d in [0u64, 1, u64::MAX] {
                let x = (1u64 << k | 1u64 << j).wrapping_add(d);
                put(x, 0);
                put(!x, 0);
            }
        }
    }
    let mut p = 1u64;
    loop {
        for d in 0..5 {
            for f in 1..10 {
                put(p.wrapping_mul(f).wrapping_add(d).wrapping_sub(2), 0);
            }
        }
        match p.checked_mul(10) {
            Some(q) => p = q,
            None => break,
        }
    }
    for x in 0..=70_000u64 {
        put(x, 0);
    }
    for e in 0..=2047u64 {
        for k in 0..52 {
            for m in [1u64 << k, (1 << k) - 1, ((1 << 52) - 1) ^ (1 << k)] {
                put(e << 52 | m, 1);
                put(1 << 63 | e << 52 | m, 1);
            }
        }
        put(e << 52, 1);
        put(1 << 63 | e << 52, 1);
    }
    for e in 0..=255u64 {
        for k in 0..23 {
            for m in [1u64 << k, (1 << k) - 1, ((1 << 23) - 1) ^ (1 << k)] {
                put(e << 23 | m, 2);
                put(1 << 31 | e << 23 | m, 2);
            }
        }
    }
    // Streams written by hand: 9 kinds with 0 to 3 members, every shape coded by up to 5 bytes.
    let codes: Vec<u8> = (0..7).chain([7, 8, 16, 17, 25, 26, 34, 35]).collect();
    for len in 1..=ctx.pick(4, 5) {
        words(len, codes.len(), &mut |w| {
            if w[0] < 7 && len > 1 || !ctx.mine() {
                return;
            }
            let b: Vec<u8> = w.iter().map(|&i| codes[i]).collect();
            s.say(ctx, "hand-written streams", 4, &|| format!("{:?}", b), &b);
        });
    }
    for i in 0.. {
        let n = ctx.pick(40, 400);
        let x = s.std.get(|o| (s.std.made)(i, n, o)).to_vec();
        if x.is_empty() {
            break;
        }
        if ctx.mine() {
            let name = String::from_utf8_lossy(&x).lines().next().unwrap().to_string();
            if ctx.go("derived", name.as_bytes()) {
                let y = s.no.get(|o| (s.no.made)(i, n, o)).to_vec();
                if x != y {
                    ctx.fail(differ(&x, &y));
                }
                ctx.nontrivial();
            }
        }
    }
}

fn body(ctx: &mut Ctx) {
    let t = run::verif_dir().join("target");
    let s = Both { std: load(&t.join("release/libmc_c21side.so")), no: load(&t.join("nostd/release/libmc_c21side.so")), n: 0 };
    if !(s.std.quiet)() || (s.no.quiet)() {
        eprintln!("the two builds are not what they should be");
        std::process::abort();
    }
    let n = (s.std.types)();
    let s = Both { n, ..s };
    if ctx.go("types", b"number of types") {
        let m = (s.no.types)();
        ctx.check(n == m, || format!("{} and {}", n, m));
        ctx.nontrivial();
    }
    strings(ctx, &s);
    numbers(ctx, &s);
    texts(ctx, &s);
    documents(ctx, &s);
    values(ctx, &s);
}

fn main() {
    run::main(
        Spec {
            property: "C21",
            level: "exploration",
            rule: "two builds of the library, with and without the std feature, are loaded into one process; every enumerated document is parsed by both into every type (or the first types of the list for the largest families), every enumerated value is written by both, and the exact descriptions (bits of floats, text, Debug text, error text, the calls a visitor and a stream get) are compared byte by byte. Non-trivial: the document is accepted by some type, or a value was written.",
            assumptions: &["HashMap exists only with std and is left out, as the property says"],
            stall: 60,
            mem_mb: 6000,
            bounds: "all strings of up to 4 (5) of 32 pieces, all token words to 4 (5), number strings to 6 (8) characters, significands to 26 (60) digits x exponents to 330 (700), every escape, every 61st (every) character, all trees to 4 (5) nodes with truncations and changes, 166 characters (all of ASCII among them) at every place of all trees to 3 (4) nodes, nesting to 50000 (1000000), structured integers, doubles and singles, hand-written streams of up to 4 (5) nodes, the derived zoo",
        },
        body,
    )
}
