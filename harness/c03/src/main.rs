//! C03: number literals denote their numeric value or are refused.

use mc_core::gen::lengths;
use mc_core::num::{num_ref, ulps, NumRef};
use mc_core::run::{self, Ctx, Spec};
use mc_core::rv::{self, RV};
use mc_zoo::{judge, parse};
use miniserde::de::{Deserialize, Visitor};
use miniserde::json::{Number, Value};
use miniserde::{make_place, Result};

/// What the visitor was told.
#[derive(Debug, PartialEq)]
enum Told {
    Neg(i64),
    Non(u64),
    Flt(f64),
}
make_place!(Place);
impl Deserialize for Told {
    fn begin(out: &mut Option<Self>) -> &mut dyn Visitor {
        Place::new(out)
    }
}
impl Visitor for Place<Told> {
    fn negative(&mut self, n: i64) -> Result<()> {
        self.out = Some(Told::Neg(n));
        Ok(())
    }
    fn nonnegative(&mut self, n: u64) -> Result<()> {
        self.out = Some(Told::Non(n));
        Ok(())
    }
    fn float(&mut self, n: f64) -> Result<()> {
        self.out = Some(Told::Flt(n));
        Ok(())
    }
}

fn verdict<T: mc_zoo::Model + Deserialize>(ctx: &mut Ctx, name: &str, v: &RV, doc: &str) -> bool {
    let got = parse::<T>(doc);
    if let Err(m) = judge(Some(v), &got) {
        ctx.fail(format!("{}: {}", name, m));
    }
    got.is_ok()
}

fn is_number(lit: &str) -> bool {
    matches!(rv::read_ok(lit), Some(RV::Num(l)) if l == lit)
}

fn lite(ctx: &mut Ctx, fam: &'static str, lit: &str) {
    if !ctx.go(fam, lit.as_bytes()) {
        return;
    }
    let r = num_ref(lit);
    if r != NumRef::TooBig {
        ctx.nontrivial();
    }
    let got = parse::<Told>(lit);
    let ok = match (r, &got) {
        (NumRef::Int(n, _), Ok(Told::Neg(g))) => n == *g as i128,
        (NumRef::Int(n, _), Ok(Told::Non(g))) => n == *g as i128,
        (NumRef::Float { v, must_exact, .. }, Ok(Told::Flt(g))) => {
            ctx.set_max("largest_ulp_error", ulps(v, *g).min(1 << 40));
            mc_core::num::float_ok(v, must_exact, *g)
        }
        (NumRef::Float { may_refuse, .. }, Err(_)) => may_refuse,
        (NumRef::TooBig, Err(_)) => true,
        _ => false,
    };
    ctx.check(ok, || format!("must be {:?}, got {:?}", r, got));
}

fn full(ctx: &mut Ctx, fam: &'static str, lit: &str) {
    lite(ctx, fam, lit);
    if !ctx.go(fam, lit.as_bytes()) {
        return;
    }
    let v = RV::Num(lit.to_string());
    verdict::<Value>(ctx, "Value", &v, lit);
    verdict::<Number>(ctx, "Number", &v, lit);
    verdict::<f64>(ctx, "f64", &v, lit);
    verdict::<f32>(ctx, "f32", &v, lit);
    verdict::<i64>(ctx, "i64", &v, lit);
    verdict::<u64>(ctx, "u64", &v, lit);
    let a2 = RV::Arr(vec![v.clone(), v.clone()]);
    for (a, b, c) in [("[", ",", "]"), (" [\t", "\n,", "\r] ")] {
        let d = format!("{}{}{}{}{}", a, lit, b, lit, c);
        verdict::<Value>(ctx, "array", &a2, &d);
        verdict::<Vec<f64>>(ctx, "Vec<f64>", &a2, &d);
    }
    let o = RV::Obj(vec![("a".into(), v.clone()), ("b".into(), v.clone())]);
    verdict::<Value>(ctx, "object", &o, &format!("{{\"a\":{},\"b\":{}}}", lit, lit));
    verdict::<Value>(ctx, "object", &o, &format!("{{\"a\" : {} , \"b\" : {} }}", lit, lit));
    verdict::<Value>(ctx, "trailing space", &v, &format!("{} \n", lit));
    // Anything glued to it that does not continue a number is an error.
    for t in ["x", "\u{0}", ":", "]", "\"", ",", "n", "\u{660}", "_", "f", " 1", "-", "+"] {
        let d = format!("{}{}", lit, t);
        if rv::read(&d).is_none() && parse::<Value>(&d).is_ok() {
            ctx.fail(format!("{:?} accepted", d));
        }
    }
}

fn both(ctx: &mut Ctx, fam: &'static str, lit: &str, wide: bool) {
    for l in [lit.to_string(), format!("-{}", lit)] {
        if wide {
            full(ctx, fam, &l);
        } else {
            lite(ctx, fam, &l);
        }
    }
}

/// Every literal over an alphabet.
fn alphabet(ctx: &mut Ctx, fam: &'static str, toks: &[&str], len: usize, wide: usize) {
    fn rec(ctx: &mut Ctx, fam: &'static str, toks: &[&str], cur: &mut String, d: usize, len: usize, wide: usize) {
        if d == 3 && !ctx.mine() {
            return;
        }
        if (d >= 3 || ctx.worker == 0) && is_number(cur) {
            if d <= wide {
                full(ctx, fam, cur);
            } else {
                lite(ctx, fam, cur);
            }
        }
        if d < len {
            for t in toks {
                let l = cur.len();
                cur.push_str(t);
                rec(ctx, fam, toks, cur, d + 1, len, wide);
                cur.truncate(l);
            }
        }
    }
    rec(ctx, fam, toks, &mut String::new(), 0, len, wide);
}

fn around_powers(ctx: &mut Ctx) {
    let span: i128 = ctx.pick(300, 3000);
    let mut centres: Vec<i128> = (0..=70).map(|k| 1i128 << k).collect();
    centres.extend((0..=26).map(|k| 10i128.pow(k)));
    centres.extend((0..=20).map(|k| (1i128 << 64) - 1 - (1i128 << (3 * k))));
    centres.extend((1..=9).map(|k| k * 10i128.pow(19)));
    centres.extend((1..=9).map(|k| k * 10i128.pow(18)));
    for c in centres {
        for d in -span..=span {
            if !ctx.mine() {
                continue;
            }
            let n = c + d;
            if n < 0 {
                continue;
            }
            let s = n.to_string();
            both(ctx, "power", &s, d.abs() <= 20);
            for t in if n > 0 { &["0", "5", "9", "00", "99"][..] } else { &[] } {
                both(ctx, "power-extended", &format!("{}{}", s, t), false);
            }
            for t in [".0", "e0", ".5", "E+0", ".0e-0", "e1", "e-1", "e2", ".25e2", "e22", "e-22"] {
                both(ctx, "power-float", &format!("{}{}", s, t), false);
            }
        }
    }
    // Around the places where one more digit overflows u64 or i64.
    for (head, n) in [("18446744073709551", 1000u32), ("9223372036854775", 1000), ("1844674407370955", 1000), ("922337203685477", 1000)] {
        for t in 0..n {
            if !ctx.mine() {
                continue;
            }
            let s = format!("{}{:03}", head, t);
            both(ctx, "edge", &s, t % 50 == 0 || s.ends_with("615") || s.ends_with("616") || s.ends_with("807") || s.ends_with("808") || s.ends_with("809"));
            for d in 0..10 {
                both(ctx, "edge", &format!("{}{}", s, d), false);
                both(ctx, "edge", &format!("{}.{}", s, d), false);
                both(ctx, "edge", &format!("0.{}{}", s, d), false);
                both(ctx, "edge", &format!("{}{}.5", s, d), false);
                both(ctx, "edge", &format!("{}{}e5", s, d), false);
                both(ctx, "edge", &format!("{}{}9e-30", s, d), false);
                both(ctx, "edge", &format!("{}.{}{}e-3", &s[..5], &s[5..], d), false);
            }
        }
    }
}

fn significands() -> Vec<String> {
    let mut v: Vec<String> = Vec::new();
    for s in [
        "1", "2", "3", "5", "7", "9", "10", "11", "15", "99", "100", "123", "999", "1024", "4096", "65535", "123456", "999999", "1000000",
        "4294967295", "4294967296", "9007199254740991", "9007199254740992", "9007199254740993", "9007199254740994", "9007199254740995",
        "9999999999999999", "10000000000000000", "17976931348623157", "17976931348623158", "17976931348623159", "22250738585072014",
        "22250738585072011", "4940656458412465", "2470328229206233", "49406564584124654", "24703282292062327", "24703282292062328",
        "123456789012345678", "999999999999999999", "1000000000000000000", "1844674407370955161", "1844674407370955162",
        "9223372036854775807", "9223372036854775808", "9999999999999999999", "10000000000000000000", "18446744073709551615",
        "18446744073709551616", "18446744073709551619", "18446744073709551620", "99999999999999999999", "100000000000000000000",
        "123456789012345678901234567890", "314159265358979323846264338327950288419716939937510", "179769313486231570814527423731704356798",
        "222507385850720138309023271733240406421921598046233183055332741688720443481391819585428315901251102056406733973103581100515243416155346010885601238537771882113077799353200233047961014744258363607192156504694250373420837525080665061665815894872049117996859163964850061590877011830487479978087752494994945158045160505091539985635708249330642749629382661888857000128889563999999999999999999999999999999999",
    ] {
        v.push(s.into());
    }
    for n in [15, 16, 17, 18, 19, 20, 21] {
        v.push("9".repeat(n));
        v.push("1".repeat(n));
        v.push(format!("5{}1", "0".repeat(n - 2)));
    }
    v
}

fn products(ctx: &mut Ctx) {
    let emax: i64 = ctx.pick(345, 420);
    for s in significands() {
        let n = s.len();
        for point in 0..=n.min(24) + 3 {
            if !ctx.mine() {
                continue;
            }
            // 0 .. : point from the right; beyond the left end adds zeros.
            let m = if point == 0 {
                s.clone()
            } else if point < n {
                format!("{}.{}", &s[..n - point], &s[n - point..])
            } else {
                format!("0.{}{}", "0".repeat(point - n), s)
            };
            for e in -emax..=emax {
                lite(ctx, "product", &format!("{}e{}", m, e));
                if e % 7 == 0 {
                    lite(ctx, "product", &format!("-{}E{:+04}", m, e));
                }
            }
            both(ctx, "product-plain", &m, true);
        }
    }
}

fn exact(ctx: &mut Ctx) {
    // One multiplication or division decides: must be correctly rounded.
    let top: u64 = ctx.pick(12_000, 200_000);
    let mut sigs: Vec<u64> = (0..top).collect();
    for k in 10..=53 {
        for d in 0..200u64 {
            sigs.push((1u64 << k).saturating_sub(d));
            sigs.push((1u64 << k) / 3 + d);
            sigs.push((1u64 << k) / 7 + d);
        }
    }
    for m in sigs {
        if !ctx.mine() {
            continue;
        }
        for e in -25i32..=25 {
            lite(ctx, "exact", &format!("{}e{}", m, e));
        }
        let s = m.to_string();
        for p in 1..s.len() {
            lite(ctx, "exact-point", &format!("{}.{}", &s[..p], &s[p..]));
            lite(ctx, "exact-point", &format!("-{}.{}e{}", &s[..p], &s[p..], (m % 41) as i64 - 20));
        }
        lite(ctx, "exact-point", &format!("0.{:0>7}", s));
        lite(ctx, "exact-point", &format!("0.{:0>19}", s));
        lite(ctx, "exact-point", &format!("{}.0", s));
        lite(ctx, "exact-point", &format!("-{}.000", s));
    }
}

fn extremes(ctx: &mut Ctx) {
    let top = ctx.pick(2000u64, 20000);
    for m in 1..=top {
        if !ctx.mine() {
            continue;
        }
        for e in (-345i32..=-295).chain(295..=312) {
            lite(ctx, "extreme", &format!("{}e{}", m, e));
        }
        if m <= 300 {
            for e in (-345i32..=-295).chain(295..=312) {
                both(ctx, "extreme-full", &format!("{}e{}", m, e), m <= 20);
                let z = "0".repeat(m as usize);
                lite(ctx, "extreme-shift", &format!("-1{}e{}", z, e - m as i32));
                lite(ctx, "extreme-shift", &format!("0.{}1e{}", z, e + m as i32));
                lite(ctx, "extreme-shift", &format!("7{}.{}9e{}", z, z, e - m as i32));
            }
        }
    }
    // The digits of the largest double and of the halfway point above it, perturbed one by one.
    for d in ["17976931348623157", "179769313486231570814527423731704356798070567525844996598917476803157260780028538760589558632766878171540458953514382464234321326889464182768467546703537516986049910576551282076245490090389328944075868508455133942304583236903222948165808559332123347747979e53", "1797693134862315807e290"] {
        let (m, e0) = match d.split_once('e') {
            Some((m, e)) => (m, e.parse::<i64>().unwrap()),
            None => (d, 292),
        };
        for i in 0..m.len() {
            for c in b'0'..=b'9' {
                if !ctx.mine() {
                    continue;
                }
                let mut b = m.as_bytes().to_vec();
                b[i] = c;
                let s = String::from_utf8(b).unwrap();
                if s.starts_with('0') {
                    continue;
                }
                for de in -1..=1 {
                    lite(ctx, "max-digits", &format!("{}e{}", s, e0 + de));
                    let p = 1 + i % (s.len() - 1);
                    lite(ctx, "max-digits", &format!("-{}.{}e{}", &s[..p], &s[p..], e0 + de + (s.len() - p) as i64));
                    lite(ctx, "max-digits", &format!("{}{}", s, "0".repeat((e0 + de) as usize)));
                }
            }
        }
    }
}

fn exponents(ctx: &mut Ctx) {
    let mut exps: Vec<String> = Vec::new();
    for c in [
        300i128, 308, 309, 324, 400, 616, 617, 925, 1000, 4000, 9999, 32767, 65536, 99999, 1 << 24, 214748364, 429496729, i32::MAX as i128, 1 << 31, u32::MAX as i128,
        1 << 32, 922337203685477580, i64::MAX as i128, u64::MAX as i128, 10i128.pow(30),
    ] {
        for d in -12..=12 {
            let n = c + d;
            exps.push(n.to_string());
            exps.push(format!("000{}", n));
            exps.push(format!("{}0", n));
            exps.push(format!("{}9", n));
        }
    }
    for n in [1, 2, 5, 9, 10, 11, 20, 50, 200, 1000] {
        exps.push("0".repeat(n));
        exps.push(format!("{}7", "0".repeat(n)));
        exps.push("9".repeat(n));
        exps.push(format!("1{}", "0".repeat(n)));
    }
    let mants: Vec<String> = [
        "0", "0.0", "0.000", "1", "9", "1.0", "0.1", "123.456", "18446744073709551615", "18446744073709551616", "99999999999999999999.9",
        "0.00000000000000000000000000000000001",
    ]
    .iter()
    .map(|s| s.to_string())
    .chain([format!("1{}", "0".repeat(400)), format!("0.{}1", "0".repeat(400)), format!("1{}", "0".repeat(5000)), format!("0.{}1", "0".repeat(5000)), format!("0.{}", "0".repeat(700))])
    .collect();
    for e in &exps {
        for sign in ["", "+", "-"] {
            for letter in ["e", "E"] {
                if !ctx.mine() {
                    continue;
                }
                for m in &mants {
                    let l = format!("{}{}{}{}", m, letter, sign, e);
                    both(ctx, "exponent", &l, e.len() < 6 && letter == "E");
                }
            }
        }
    }
}

fn long(ctx: &mut Ctx) {
    let dense = ctx.pick(420, 1500);
    let max = ctx.pick(1 << 15, 1 << 20);
    for n in lengths(dense, max) {
        if n == 0 || !ctx.mine() {
            continue;
        }
        let z = "0".repeat(n);
        let mut ls: Vec<(String, String)> = Vec::new();
        let mut add = |name: String, l: String| ls.push((name, l));
        for d in ["1", "3", "9", "5"] {
            add(format!("{}*{}", d, n), d.repeat(n));
            add(format!("0.{}*{}", d, n), format!("0.{}", d.repeat(n)));
            add(format!("{}*{}.5", d, n), format!("{}.5", d.repeat(n)));
            for k in [-330i64, -300, -20, 0, 18, 290, 307, 308, 309, 320] {
                add(format!("{}*{} scaled to e{}", d, n, k), format!("{}e{}", d.repeat(n), k - n as i64));
                add(format!("0.{}*{} e{}", d, n, k), format!("0.{}e{}", d.repeat(n), k));
            }
        }
        for k in [-330i64, -308, -22, 0, 22, 300, 308, 309] {
            add(format!("1 0*{} scaled e{}", n, k), format!("1{}e{}", z, k - n as i64));
            add(format!("1 0*{} . 0*{} 1 scaled e{}", n, n, k), format!("1{}.{}1e{}", z, z, k - n as i64));
            add(format!("0. 0*{} 1 scaled e{}", n, k), format!("0.{}1e{}", z, k + n as i64));
            add(format!("0. 0*{} 123456789012345678901 scaled e{}", n, k), format!("0.{}123456789012345678901e{}", z, k + n as i64));
        }
        add(format!("1 0*{}", n), format!("1{}", z));
        add(format!("1. 0*{}", n), format!("1.{}", z));
        add(format!("1. 0*{} 1", n), format!("1.{}1", z));
        add(format!("0. 0*{}", n), format!("0.{}", z));
        add(format!("0. 0*{} 1", n), format!("0.{}1", z));
        add(format!("1e 0*{} 1", n), format!("1e{}1", z));
        add(format!("1e- 0*{} 1", n), format!("1e-{}1", z));
        add(format!("1e 1*{}", n), format!("1e{}", "1".repeat(n)));
        add(format!("0e 1*{}", n), format!("0e{}", "1".repeat(n)));
        add(format!("1e- 1*{}", n), format!("1e-{}", "1".repeat(n)));
        add(format!("0.5 0*{} e3", n), format!("0.5{}e3", z));
        for (name, l) in ls {
            for (s, l) in [("", l.clone()), ("-", format!("-{}", l))] {
                if ctx.go("long", format!("{}{}", s, name).as_bytes()) {
                    ctx.nontrivial();
                    let v = RV::Num(l.clone());
                    verdict::<Value>(ctx, "Value", &v, &l);
                    let d = format!("[{} ]", l);
                    verdict::<Vec<f64>>(ctx, "Vec<f64>", &RV::Arr(vec![v]), &d);
                }
            }
        }
    }
}

fn body(ctx: &mut Ctx) {
    alphabet(ctx, "alphabet", &["0", "1", "5", "9", ".", "e", "E", "-", "+"], ctx.pick(7, 8), 5);
    alphabet(ctx, "alphabet-long", &["0", "7", ".", "e", "-"], ctx.pick(9, 11), 4);
    alphabet(ctx, "alphabet-chunks", &["0", "9", "12345678", "00000000", ".", "e", "-", "+", "30"], ctx.pick(7, 8), 3);
    around_powers(ctx);
    products(ctx);
    exact(ctx);
    extremes(ctx);
    exponents(ctx);
    long(ctx);
}

fn main() {
    run::main(
        Spec {
            property: "C03",
            level: "exploration",
            rule: "case = a number literal (long ones by recipe); parsed by a recording visitor, and in the wide families as Value, Number, f64, f32, i64, u64, inside arrays and objects, and with junk glued on; non-trivial = representable",
            assumptions: &["core's decimal to double conversion is correctly rounded", "within 4 ULP of the largest double both acceptance and refusal are allowed"],
            stall: 60,
            mem_mb: 6144,
            bounds: "all literals of <=7 (8) characters over 9, <=9 (11) over 5, <=7 (8) chunks over 9; +-300 (3000) around every power of 2 and 10; 78 significands x point positions x exponents +-345 (420); all significands <12,000 (200,000) x exponents +-25; significands <=2000 (20000) at both ends of the range; exponents around 26 magnitudes to 10^30; digit runs to 420 (1500) and 2^15 (2^20)",
        },
        body,
    );
}
