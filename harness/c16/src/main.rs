//! C16: no invalid memory access, leak or double free on any path.
//!
//! `miri TIER SHARD SHARDS [CASE]` runs one share inside the interpreter; otherwise the checker
//! runs its own native share under AddressSanitizer and drives the interpreter.

mod space;

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

/// Counts only: the addresses and the contents stay those of the system's allocator, so that the
/// interpreter and the sanitizer see every block as it is.
struct Counting;
static BLOCKS: AtomicI64 = AtomicI64::new(0);
static BYTES: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        BLOCKS.fetch_add(1, Relaxed);
        BYTES.fetch_add(l.size() as i64, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        BLOCKS.fetch_sub(1, Relaxed);
        BYTES.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        BYTES.fetch_add(n as i64 - l.size() as i64, Relaxed);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Counting = Counting;
pub type Mark = (i64, i64);
pub fn mark() -> Mark {
    (BLOCKS.load(Relaxed), BYTES.load(Relaxed))
}

/// The interpreted side writes one byte per case it starts; the native side enumerates the same
/// cases to find the one that was not survived.
#[cfg(miri)]
mod driver {
    extern "C" {
        fn write(fd: i32, p: *const u8, n: usize) -> isize;
    }
    struct M {
        level: usize,
        shard: u64,
        shards: u64,
        only: Option<u64>,
        unit: u64,
        cases: u64,
        faults: u64,
    }
    impl crate::space::Sink for M {
        fn mine(&mut self) -> bool {
            self.unit += 1;
            self.unit % self.shards == self.shard
        }
        fn go(&mut self, fam: &'static str, _: &dyn Fn() -> String) -> bool {
            self.cases += 1;
            if self.only.map_or(false, |o| o != self.cases) {
                return false;
            }
            unsafe { write(1, fam.as_ptr(), 1) };
            true
        }
        fn fail(&mut self, msg: String) {
            println!("\nFAIL {}", msg.replace('\n', " "));
            std::process::exit(1);
        }
        fn nontrivial(&mut self) {}
        fn add(&mut self, _: &'static str, n: u64) {
            self.faults += n;
        }
        fn level(&self) -> usize {
            self.level
        }
    }
    pub fn main() {
        let a: Vec<String> = std::env::args().collect();
        if a.len() < 4 {
            return;
        }
        std::panic::set_hook(Box::new(|_| ()));
        let mut m = M {
            level: if a[1] == "thorough" { 1 } else { 0 },
            shard: a[2].parse().unwrap(),
            shards: a[3].parse().unwrap(),
            only: a.get(4).map(|o| o.parse().unwrap()),
            unit: 0,
            cases: 0,
            faults: 0,
        };
        crate::space::explore(&mut m);
        println!("\nDONE {} {}", m.cases, m.faults);
    }
}

#[cfg(not(miri))]
mod driver {
    use mc_core::run::{self, Ctx, Spec};
    use std::io::Read;
    use std::process::{Command, Stdio};

    struct S<'a>(&'a mut Ctx);
    impl crate::space::Sink for S<'_> {
        fn mine(&mut self) -> bool {
            self.0.mine()
        }
        fn go(&mut self, fam: &'static str, case: &dyn Fn() -> String) -> bool {
            self.0.go(fam, case().as_bytes())
        }
        fn fail(&mut self, msg: String) {
            self.0.fail(msg)
        }
        fn nontrivial(&mut self) {
            self.0.nontrivial()
        }
        fn add(&mut self, key: &'static str, n: u64) {
            self.0.add(key, n)
        }
        fn level(&self) -> usize {
            self.0.pick(2, 3)
        }
    }

    /// Finds the case that the interpreter was executing, by its number.
    struct Find {
        level: usize,
        shard: u64,
        shards: u64,
        unit: u64,
        left: u64,
        found: String,
    }
    impl crate::space::Sink for Find {
        fn mine(&mut self) -> bool {
            self.unit += 1;
            self.left > 0 && self.unit % self.shards == self.shard
        }
        fn go(&mut self, fam: &'static str, case: &dyn Fn() -> String) -> bool {
            if self.left == 1 {
                self.found = format!("{}: {}", fam, case());
            }
            self.left = self.left.saturating_sub(1);
            false
        }
        fn fail(&mut self, _: String) {}
        fn nontrivial(&mut self) {}
        fn add(&mut self, _: &'static str, _: u64) {}
        fn level(&self) -> usize {
            self.level
        }
    }
    fn name(level: usize, shard: u64, shards: u64, n: u64) -> String {
        let mut f = Find { level, shard, shards, unit: 0, left: n, found: String::new() };
        crate::space::explore(&mut f);
        format!("{}/{} {} {}", shard, shards, n, f.found)
    }

    /// One share of the space inside the interpreter, or one case of it.
    fn interpreted(ctx: &mut Ctx, model: &'static str, flags: &str, level: usize, shard: u64, shards: u64, only: Option<u64>) {
        let dir = run::verif_dir();
        let tier = ["quick", "thorough"][level];
        let mut c = Command::new("cargo");
        c.args(["+nightly", "miri", "run", "--offline", "-q", "--manifest-path"])
            .arg(dir.join("harness/c16/Cargo.toml"))
            .arg("--target-dir")
            .arg(dir.join("target/miri"))
            .args(["--", tier, &shard.to_string(), &shards.to_string()]);
        if let Some(o) = &only {
            c.arg(o.to_string());
        }
        c.env("MIRIFLAGS", format!("-Zmiri-provenance-gc=100000 {}", flags)).env("RUSTFLAGS", "-Awarnings").env("CARGO_NET_OFFLINE", "true");
        c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
        let mut k = c.spawn().expect("cargo miri");
        let mut err = k.stderr.take().unwrap();
        let errs = std::thread::spawn(move || {
            let mut s = Vec::new();
            let _ = err.read_to_end(&mut s);
            String::from_utf8_lossy(&s).into_owned()
        });
        let mut out = k.stdout.take().unwrap();
        let mut buf = [0u8; 1 << 16];
        let (mut n, mut text) = (0u64, Vec::new());
        loop {
            let l = out.read(&mut buf).unwrap_or(0);
            if l == 0 {
                break;
            }
            ctx.beat();
            for &b in &buf[..l] {
                if b != b'\n' && text.is_empty() {
                    n += 1;
                } else {
                    text.push(b);
                }
            }
        }
        let st = k.wait().unwrap();
        let errs = errs.join().unwrap();
        let text = String::from_utf8_lossy(&text).into_owned();
        let done: Option<Vec<u64>> = text.trim().strip_prefix("DONE ").map(|d| d.split(' ').map(|x| x.parse().unwrap()).collect());
        match (st.success(), done) {
            (true, Some(d)) => {
                ctx.add("cases interpreted", d[0]);
                ctx.add("faults interpreted", d[1]);
                if ctx.go(model, format!("share {} of {}: {} cases", shard, shards, d[0]).as_bytes()) {
                    ctx.nontrivial();
                }
            }
            _ if n == 0 && only.is_none() => {
                // No case was started: the interpreter itself did not.
                eprintln!("the interpreter does not start: {}", errs.chars().take(2000).collect::<String>());
                std::process::abort();
            }
            _ => {
                let why: String = errs.lines().filter(|l| !l.trim().is_empty()).take(16).collect::<Vec<_>>().join(" / ");
                let case = name(level, shard, shards, only.unwrap_or(n));
                if ctx.go(model, case.as_bytes()) {
                    ctx.fail(format!("{} {}", text.trim(), why));
                }
            }
        }
    }

    const BORROWS: &str = "";
    const TREE: &str = "-Zmiri-tree-borrows";
    const STRICT: &str = "-Zmiri-strict-provenance -Zmiri-symbolic-alignment-check";

    fn body(ctx: &mut Ctx) {
        run::QUIET.store(true, std::sync::atomic::Ordering::Relaxed);
        let models: &[(&'static str, &str, usize)] = if ctx.quick() {
            &[("interpreted, stacked borrows", BORROWS, 0)]
        } else {
            &[("interpreted, stacked borrows, strict", STRICT, 1), ("interpreted, tree borrows", TREE, 0)]
        };
        if let Some((f, c)) = ctx.replaying() {
            if let Some(m) = models.iter().find(|m| m.0 == f) {
                let c = String::from_utf8_lossy(&c).into_owned();
                let mut i = c.split(|x| x == '/' || x == ' ').filter_map(|x| x.parse::<u64>().ok());
                let (a, b, n) = (i.next().unwrap(), i.next().unwrap(), i.next().unwrap());
                interpreted(ctx, m.0, m.1, m.2, a, b, Some(n));
                return;
            }
        } else {
            let (w, n) = (ctx.worker, ctx.workers);
            for m in models {
                // Every second unit for the second model.
                let (w, n) = if m.1 == TREE { (2 * w, 2 * n) } else { (w, n) };
                interpreted(ctx, m.0, m.1, m.2, w, n, None);
            }
        }
        crate::space::explore(&mut S(ctx));
    }

    pub fn main() {
        run::main(
            Spec {
                property: "C16",
                level: "fault_enumeration",
                rule: "every case of the space (document x target type, with an error and a panic at every callback; value trees serialized through instrumented streams with a panic at every callback; histories of operations on untyped values; pairs of calls on two threads) is executed in the Miri interpreter, which checks every memory access against the aliasing, initialization, provenance, alignment and data race rules, and a larger space of the same kind natively under AddressSanitizer; allocations and tracked values are counted around each case.",
                assumptions: &["Miri's aliasing models (Stacked Borrows; Tree Borrows in thorough) stand for the rules of the language", "std's HashMap leaks its other entries when the drop of one panics (such points are left out)"],
                stall: 240,
                mem_mb: 0,
                bounds: "interpreted: token words to length 2 (3, dealt out to the types), strings of up to 36 (70) and around 64 (256) bytes before 9 escapes, trees to 2 (3, dealt out to the targets) nodes, truncations, documents made for the types, serialized trees to 3 (4) nodes, histories of 1 (2) of 28 operations; native: words to 4 (5), trees to 3 (4), histories of 2 (3), strings to 4096 (70000) bytes; 63 instrumented and about 100 plain target types",
            },
            body,
        )
    }
}

fn main() {
    driver::main()
}
