//! C15: serialization drives each stream once, in order, child before sibling.

use mc_core::gen::{lengths, trees, words};
use mc_core::run::{self, Ctx, Spec};
use mc_core::rv::{read_ok, RV};
use mc_probe::dec::HB;
use mc_probe::serde_side::{go, node, Body, Rs, Style, Told, N, TK};
use mc_probe::{Act, Ev};
use std::collections::{BTreeMap, HashMap};

/// The same content; numbers are compared by value.
fn denotes(got: &RV, want: &RV) -> bool {
    match (got, want) {
        (RV::Num(a), RV::Num(b)) => a == b || (b.contains(['.', 'e']) && a.parse::<f64>().unwrap().to_bits() == b.parse::<f64>().unwrap().to_bits()),
        (RV::Arr(a), RV::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| denotes(a, b)),
        (RV::Obj(a), RV::Obj(b)) => a.len() == b.len() && a.iter().zip(b).all(|((k, a), (l, b))| k == l && denotes(a, b)),
        _ => got == want,
    }
}

fn told(x: &dyn Told) -> Result<usize, String> {
    let r = go(x, usize::MAX, Act::Nothing);
    if let Some(b) = r.bad {
        return Err(b);
    }
    if r.alive != 0 {
        return Err(format!("{} lent values never dropped", r.alive));
    }
    let text = r.result.map_err(|_| "panicked".to_string())?;
    let mut want = Vec::new();
    x.calls(&mut want);
    let got: Vec<&Ev> = r.log.iter().filter(|e| e.dictated()).collect();
    for i in 0..got.len().max(want.len()) {
        if got.get(i).copied() != want.get(i) {
            return Err(format!("call {} is {:?}, the value dictates {:?}", i, got.get(i), want.get(i)));
        }
    }
    match read_ok(&text) {
        Some(v) if denotes(&v, &x.content()) => Ok(got.len()),
        _ => Err(format!("the text is {}, the answers denote {}", text.chars().take(300).collect::<String>(), x.content().text())),
    }
}
fn case(ctx: &mut Ctx, fam: &'static str, name: &str, x: &dyn Told) {
    if ctx.go(fam, name.as_bytes()) {
        match told(x) {
            Ok(n) => {
                ctx.add("calls", n as u64);
                ctx.nontrivial();
            }
            Err(m) => ctx.fail(m),
        }
    }
}

fn wrapped(ctx: &mut Ctx, t: &RV, mix: usize) {
    let kids: Vec<RV> = match t {
        RV::Arr(a) => a.clone(),
        RV::Obj(o) => o.iter().map(|e| e.1.clone()).collect(),
        _ => return,
    };
    let mut ids = 0;
    let mut mk = |ids: &mut u32| -> Vec<N> { kids.iter().map(|k| node(k, mix, ids)).collect() };
    let name = |w: &str| format!("{} {} {}", w, mix, t.text());
    let v = mk(&mut ids);
    case(ctx, "inside library types", &name("Vec<&N>"), &v.iter().collect::<Vec<_>>());
    case(ctx, "inside library types", &name("Vec<Option<Box<N>>>"), &mk(&mut ids).into_iter().map(|n| if matches!(n.body, Body::Null) { None } else { Some(Box::new(n)) }).collect::<Vec<_>>());
    let m: BTreeMap<TK, N> = mk(&mut ids).into_iter().enumerate().map(|(i, n)| (TK(format!("k\"{}", i)), n)).collect();
    case(ctx, "inside library types", &name("BTreeMap"), &m);
    let m: HashMap<TK, N, HB> = m.into_iter().collect();
    case(ctx, "inside library types", &name("HashMap"), &m);
    let mut it = mk(&mut ids).into_iter();
    if let (Some(a), Some(b)) = (it.next(), it.next()) {
        let p = (a, (b, it.collect::<Vec<_>>()));
        case(ctx, "inside library types", &name("pairs"), &p);
        let (a, (b, c)) = p;
        let r = Rs { a, b: Some(&b), c: c.into_iter().map(Box::new).collect() };
        case(ctx, "inside library types", &name("derived"), &r);
        case(ctx, "inside library types", &name("array"), &[&r, &r]);
        let d: Vec<Box<dyn Told>> = mk(&mut ids).into_iter().map(|n| Box::new(vec![n]) as Box<dyn Told>).collect();
        case(ctx, "inside library types", &name("Vec<Box<dyn>>"), &d);
        case(ctx, "inside library types", &name("map of derived"), &BTreeMap::from([(TK("x".into()), Some(r)), (TK("y".into()), None)]));
    }
}

fn body(ctx: &mut Ctx) {
    let sc = [RV::Null, RV::Str("\"é\u{1}".into()), RV::Num("1.5".into())];
    for t in trees(ctx.pick(5, 6), &sc, &["k", "\n\\"]) {
        if !ctx.mine() {
            continue;
        }
        // Which containers lend, which strings and keys are owned: every combination (repeating
        // with period 5) for small trees.
        let mixes: &[usize] = if t.nodes() <= ctx.pick(4, 5) { &ALL } else { &ALL[..6] };
        for &mix in mixes {
            let n = node(&t, mix, &mut 0);
            case(ctx, "all trees", &format!("{} {}", mix, t.text()), &n);
        }
        if t.nodes() <= 5 {
            wrapped(ctx, &t, 0);
            wrapped(ctx, &t, 31);
            wrapped(ctx, &t, 10);
        }
    }
    for t in trees(ctx.pick(8, 9), &[], &["k"]) {
        if ctx.mine() {
            for mix in [0, 31, 21] {
                case(ctx, "all trees of containers", &format!("{} {}", mix, t.text()), &node(&t, mix, &mut 0));
            }
        }
    }
    // Every fragment kind next to every other, in lending and stored streams.
    let frag = |i: usize| -> Body {
        match i {
            0 => Body::Null,
            1 => Body::Bool(true),
            2 => Body::Str("a\"".into(), true),
            3 => Body::Str("b\n".into(), false),
            4 => Body::U64(u64::MAX),
            5 => Body::I64(i64::MIN),
            6 => Body::F64(-1.5e-9),
            7 => Body::F64(f64::NAN),
            8 => Body::Seq(Style::Lent, vec![]),
            9 => Body::Map(Style::Stored, vec![]),
            10 => Body::Seq(Style::Stored, vec![N::new(99, Body::Bool(false))]),
            _ => Body::Map(Style::Lent, vec![("p".into(), false, N::new(99, Body::U64(0))), ("q\t".into(), true, N::new(98, Body::Str(String::new(), false)))]),
        }
    };
    for len in 0..=ctx.pick(3, 4) {
        words(len, 12, &mut |w| {
            if !ctx.mine() {
                return;
            }
            for st in [Style::Stored, Style::Lent] {
                let kids = || w.iter().enumerate().map(|(i, &f)| N::new(i as u32 + 1, frag(f)));
                case(ctx, "fragment sequences", &format!("seq {:?} {:?}", st, w), &N::new(0, Body::Seq(st, kids().collect())));
                for own in 0..3 {
                    let m = kids().enumerate().map(|(i, n)| (["a", "\"", "é", "a"][i].to_string(), own == 1 || own == 2 && i % 2 == 0, n)).collect();
                    case(ctx, "fragment sequences", &format!("map {:?} {} {:?}", st, own, w), &N::new(0, Body::Map(st, m)));
                }
            }
        });
    }
    for n in lengths(ctx.pick(100, 600), ctx.pick(4096, 40000)) {
        if !ctx.mine() {
            continue;
        }
        for st in [Style::Stored, Style::Lent] {
            let kids = || (0..n as u32).map(|i| N::new(i + 1, if i % 3 == 0 { Body::Seq(st, vec![N::new(1 << 30, Body::Null)]) } else { Body::U64(i as u64) }));
            case(ctx, "sizes", &format!("wide seq {} {:?}", n, st), &N::new(0, Body::Seq(st, kids().collect())));
            case(ctx, "sizes", &format!("wide map {} {:?}", n, st), &N::new(0, Body::Map(st, kids().map(|x| (format!("{}\u{0}", x.id), x.id % 2 == 0, x)).collect())));
        }
        for w in 0..4u32 {
            if n > 3000 || (w == 3 && n > 300) {
                continue;
            }
            let mut x = N::new(n as u32, Body::Bool(true));
            for i in (0..n as u32).rev() {
                let st = if w == 3 { Style::Lent } else { Style::Stored };
                x = N::new(i, if (w >> (i % 2)) & 1 == 0 {
                    Body::Seq(st, vec![x, N::new(1 << 30, Body::Null)])
                } else {
                    Body::Map(st, vec![("k".into(), false, x), ("l".into(), true, N::new(1 << 30, Body::I64(-1)))])
                });
            }
            case(ctx, "sizes", &format!("deep {} {}", n, w), &x);
        }
    }
}
const ALL: [usize; 32] = [0, 31, 10, 21, 4, 27, 1, 2, 3, 5, 6, 7, 8, 9, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 22, 23, 24, 25, 26, 28, 29, 30];

fn main() {
    run::main(
        Spec {
            property: "C15",
            level: "exploration",
            rule: "for every value built from instrumented nodes and streams, the recorded calls (begin, next, drop of each stream) must be exactly the sequence the value dictates, and the text must denote the answers; streams keep what they lend inside themselves and destroy it at the next request",
            assumptions: &["the reference reader"],
            stall: 60,
            mem_mb: 4096,
            bounds: "all trees of up to 5 (6) nodes with all lending/ownership mixes of period 5 for up to 4 (5) nodes; all container trees of up to 8 (9) nodes; all sequences of up to 3 (4) of 12 fragments; inside 9 library types; widths to 4096 (40000), depths to 3000",
        },
        body,
    )
}
