//! The exploration runner. The parent process starts one worker process per core; each worker
//! enumerates the whole space and executes its share. Every worker publishes the case it is
//! executing in a shared memory slot, so a crash, a stack overflow, a runaway allocation or a hang
//! of the code under test is attributed to the exact case and reported as a violation.

use std::collections::BTreeMap;
use std::fs;
use std::io::Write;
use std::os::unix::io::AsRawFd;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::{Duration, Instant};

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
}

const SLOT: usize = 1 << 16;
const HDR: usize = 32;

pub struct Ctx {
    pub tier: Tier,
    pub seed: u64,
    pub worker: u64,
    pub workers: u64,
    slot: *mut u8,
    replay: Option<(String, Vec<u8>)>,
    replay_hit: bool,
    shard: u64,
    counts: BTreeMap<String, u64>,
    evaluations: u64,
    fam: &'static str,
    fam_n: u64,
    fam_counts: BTreeMap<&'static str, u64>,
    samples: BTreeMap<&'static str, Vec<String>>,
    distinct: Vec<u64>,
    cur: Vec<u8>,
    known: Vec<(String, String)>,
    known_hit: Vec<String>,
    out: PathBuf,
    t0: Instant,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Spec {
    pub property: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// Seconds without progress that count as "never returns".
    pub stall: u64,
    /// Address space limit per worker, MiB.
    pub mem_mb: u64,
    /// What "exhaustive" is claimed about.
    pub bounds: &'static str,
}

impl Ctx {
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.quick() {
            quick
        } else {
            thorough
        }
    }
    fn flush_fam(&mut self) {
        if self.fam_n > 0 {
            *self.fam_counts.entry(self.fam).or_insert(0) += self.fam_n;
            self.fam_n = 0;
        }
    }
    /// What is being replayed.
    pub fn replaying(&self) -> Option<(String, Vec<u8>)> {
        self.replay.clone()
    }
    pub fn beat(&self) {
        unsafe { (*(self.slot as *const AtomicU64)).fetch_add(1, Relaxed) };
    }
    /// Round-robin sharding: true when the next unit belongs to this worker.
    pub fn mine(&mut self) -> bool {
        self.shard += 1;
        self.beat();
        if self.replay.is_some() {
            return true;
        }
        self.shard % self.workers == self.worker
    }
    /// Announces a case. False only in replay mode, for other cases.
    #[inline]
    pub fn go(&mut self, family: &'static str, case: &[u8]) -> bool {
        if let Some((f, c)) = &self.replay {
            if f != family || c != case {
                return false;
            }
            self.replay_hit = true;
        }
        unsafe {
            let n = case.len().min(SLOT - HDR - 64);
            let fl = family.len().min(48);
            (self.slot.add(8) as *mut u32).write_volatile(fl as u32);
            (self.slot.add(12) as *mut u32).write_volatile(n as u32);
            std::ptr::copy_nonoverlapping(family.as_ptr(), self.slot.add(16), fl);
            std::ptr::copy_nonoverlapping(case.as_ptr(), self.slot.add(64), n);
        }
        self.beat();
        if self.fam.as_ptr() != family.as_ptr() || self.fam.len() != family.len() {
            self.flush_fam();
            self.fam = family;
        }
        self.fam_n += 1;
        self.cur.clear();
        self.cur.extend_from_slice(case);
        self.evaluations += 1;
        true
    }
    /// Marks the current case as distinct and non-trivial evidence.
    pub fn nontrivial(&mut self) {
        let mut h: u64 = 0xcbf29ce484222325;
        for &b in &self.cur {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        h ^= h >> 29;
        self.distinct.push(h.wrapping_mul(0x9e3779b97f4a7c15));
        if self.distinct.len() == self.distinct.capacity() && self.distinct.len() > 1 << 22 {
            self.distinct.sort_unstable();
            self.distinct.dedup();
        }
        let s = self.samples.entry(self.fam).or_default();
        if s.len() < 2 || (s.len() < 3 && self.cur.len() > 12) {
            s.push(String::from_utf8_lossy(&self.cur).chars().take(160).collect());
        }
    }
    pub fn add(&mut self, key: &str, n: u64) {
        if let Some(c) = self.counts.get_mut(key) {
            *c += n;
        } else {
            self.counts.insert(key.to_string(), n);
        }
    }
    pub fn set_max(&mut self, key: &str, n: u64) {
        let k = format!("max:{}", key);
        let c = self.counts.entry(k).or_insert(0);
        *c = (*c).max(n);
    }
    /// Reports a violation for the current case. Returns (so enumeration goes on) only when the
    /// case is a listed known finding.
    pub fn fail(&mut self, msg: impl AsRef<str>) {
        let case = String::from_utf8_lossy(&self.cur).into_owned();
        for (f, c) in &self.known {
            if f == self.fam && *c == case {
                self.known_hit.push(format!("{} {}", f, case));
                return;
            }
        }
        let v = format!(
            "{{\"family\":{},\"case\":{},\"case_hex\":\"{}\",\"message\":{}}}",
            js(self.fam),
            js(&case),
            hex(&self.cur),
            js(msg.as_ref())
        );
        fs::write(self.out.join(format!("violation.{}", self.worker)), v).unwrap();
        self.finish();
        std::process::exit(1);
    }
    pub fn check(&mut self, ok: bool, msg: impl FnOnce() -> String) {
        if !ok {
            let m = msg();
            self.fail(m);
        }
    }
    pub fn case_str(&self) -> String {
        String::from_utf8_lossy(&self.cur).into_owned()
    }
    pub fn elapsed(&self) -> f64 {
        self.t0.elapsed().as_secs_f64()
    }
    fn finish(&mut self) {
        self.flush_fam();
        let mut s = String::new();
        s.push_str(&format!("evaluations {}\n", self.evaluations));
        for (k, v) in &self.fam_counts {
            s.push_str(&format!("fam:{} {}\n", k, v));
        }
        for (k, v) in &self.counts {
            s.push_str(&format!("{} {}\n", k, v));
        }
        fs::write(self.out.join(format!("counts.{}", self.worker)), s).unwrap();
        let mut t = String::new();
        for (f, v) in &self.samples {
            for x in v {
                t.push_str(&format!("{}\n", js(&format!("{}: {}", f, x))));
            }
        }
        fs::write(self.out.join(format!("samples.{}", self.worker)), t).unwrap();
        self.distinct.sort_unstable();
        self.distinct.dedup();
        let mut b = Vec::with_capacity(self.distinct.len() * 8);
        for h in &self.distinct {
            b.extend_from_slice(&h.to_le_bytes());
        }
        fs::write(self.out.join(format!("distinct.{}", self.worker)), b).unwrap();
        fs::write(self.out.join(format!("known.{}", self.worker)), self.known_hit.join("\n")).unwrap();
        if self.replay.is_some() {
            eprintln!("replay: case {}", if self.replay_hit { "executed" } else { "not in this tier's space" });
        }
        fs::write(self.out.join(format!("done.{}", self.worker)), "1").unwrap();
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
/// JSON string literal.
pub fn js(s: &str) -> String {
    let mut o = String::new();
    crate::rv::quote(s, &mut o);
    o
}

fn field(text: &str, key: &str) -> Option<String> {
    match crate::rv::read_ok(text)? {
        crate::rv::RV::Obj(o) => o.into_iter().find(|(k, _)| k == key).and_then(|(_, v)| match v {
            crate::rv::RV::Str(s) => Some(s),
            _ => None,
        }),
        _ => None,
    }
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

fn known_findings(prop: &str) -> Vec<(String, String)> {
    // One JSON object per line: {"property","family","case","what"}; "fixed:" lines are ignored.
    let mut v = Vec::new();
    if let Ok(t) = fs::read_to_string(verif_dir().join("known_findings.txt")) {
        for l in t.lines() {
            if field(l, "property").as_deref() == Some(prop) {
                if let (Some(f), Some(c)) = (field(l, "family"), field(l, "case")) {
                    v.push((f, c));
                }
            }
        }
    }
    v
}

pub fn main(spec: Spec, body: fn(&mut Ctx)) {
    let args: Vec<String> = std::env::args().collect();
    let tier = match args.get(1).map(|s| s.as_str()) {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    if args.get(2).map(|s| s.as_str()) == Some("--worker") {
        worker(spec, body, tier, &args);
    } else {
        parent(spec, tier, &args);
    }
}

fn map_slot(path: &Path) -> *mut u8 {
    let f = fs::OpenOptions::new().read(true).write(true).create(true).open(path).unwrap();
    f.set_len(SLOT as u64).unwrap();
    let p = unsafe { mmap(std::ptr::null_mut(), SLOT, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1);
    p
}

fn worker(spec: Spec, body: fn(&mut Ctx), tier: Tier, args: &[String]) {
    let w: u64 = args[3].parse().unwrap();
    let n: u64 = args[4].parse().unwrap();
    let out = PathBuf::from(&args[5]);
    unsafe {
        let m = spec.mem_mb << 20;
        if m > 0 {
            setrlimit(9, &[m, m]); // RLIMIT_AS
        }
        setrlimit(4, &[0, 0]); // RLIMIT_CORE
    }
    let replay = args.get(6).map(|p| {
        let t = fs::read_to_string(p).unwrap();
        (field(&t, "family").unwrap(), unhex(&field(&t, "case_hex").unwrap()))
    });
    let ctx = Ctx {
        tier,
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        worker: w,
        workers: n,
        slot: map_slot(&out.join(format!("slot.{}", w))),
        replay,
        replay_hit: false,
        shard: 0,
        counts: BTreeMap::new(),
        evaluations: 0,
        fam: "",
        fam_n: 0,
        fam_counts: BTreeMap::new(),
        samples: BTreeMap::new(),
        distinct: Vec::new(),
        cur: Vec::new(),
        known: known_findings(spec.property),
        known_hit: Vec::new(),
        out,
        t0: Instant::now(),
    };
    // A large stack for the reference models; the code under test is given small stacks where
    // that is the point.
    let mut ctx = SendPtr(ctx);
    let h = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let c = &mut ctx;
            let prev = std::panic::take_hook();
            std::panic::set_hook(Box::new(move |i| {
                if !QUIET.load(Relaxed) {
                    prev(i)
                }
            }));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| body(&mut c.0)));
            if let Err(e) = r {
                let m = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_else(|| "?".into());
                c.0.fail(format!("panicked: {}", m));
            }
            c.0.finish();
        })
        .unwrap();
    let code = if h.join().is_ok() { 0 } else { 3 };
    std::process::exit(code);
}

/// Silences the panic message (for checks that provoke panics).
pub static QUIET: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

struct SendPtr(Ctx);
unsafe impl Send for SendPtr {}

fn read_slot(p: *mut u8) -> (u64, String, Vec<u8>) {
    unsafe {
        let beat = (*(p as *const AtomicU64)).load(Relaxed);
        let fl = ((p.add(8) as *const u32).read_volatile() as usize).min(48);
        let n = ((p.add(12) as *const u32).read_volatile() as usize).min(SLOT - 64);
        let f = std::slice::from_raw_parts(p.add(16), fl).to_vec();
        let c = std::slice::from_raw_parts(p.add(64), n).to_vec();
        (beat, String::from_utf8_lossy(&f).into_owned(), c)
    }
}

fn parent(spec: Spec, tier: Tier, args: &[String]) {
    let t0 = Instant::now();
    let prop = spec.property;
    let tname = if tier == Tier::Quick { "quick" } else { "thorough" };
    let replay = args.iter().position(|a| a == "--replay").map(|i| args[i + 1].clone());
    let n = if replay.is_some() {
        1
    } else {
        std::env::var("VERIF_WORKERS")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()))
    };
    let out = verif_dir().join("out").join(format!("{}.{}", prop, std::process::id()));
    let _ = fs::remove_dir_all(&out);
    fs::create_dir_all(&out).unwrap();
    let exe = std::env::current_exe().unwrap();
    let mut kids = Vec::new();
    for w in 0..n {
        let slot = map_slot(&out.join(format!("slot.{}", w)));
        let mut c = Command::new(&exe);
        c.arg(tname).arg("--worker").arg(w.to_string()).arg(n.to_string()).arg(&out);
        if let Some(r) = &replay {
            c.arg(r);
        }
        let err = fs::File::create(out.join(format!("stderr.{}", w))).unwrap();
        c.stdin(Stdio::null()).stdout(Stdio::null());
        if replay.is_none() {
            c.stderr(err);
        }
        kids.push((c.spawn().unwrap(), slot, 0u64, Instant::now(), false));
    }
    let mut violations: Vec<(String, Vec<u8>, String)> = Vec::new();
    let mut tool_error = None;
    let mut live = n;
    while live > 0 && violations.is_empty() && tool_error.is_none() {
        std::thread::sleep(Duration::from_millis(20));
        for (w, k) in kids.iter_mut().enumerate() {
            if k.4 {
                continue;
            }
            if let Some(st) = k.0.try_wait().unwrap() {
                k.4 = true;
                live -= 1;
                let vf = out.join(format!("violation.{}", w));
                if let Ok(v) = fs::read_to_string(&vf) {
                    violations.push((
                        field(&v, "family").unwrap_or_default(),
                        unhex(&field(&v, "case_hex").unwrap_or_default()),
                        field(&v, "message").unwrap_or_default(),
                    ));
                } else if !st.success() || !out.join(format!("done.{}", w)).exists() {
                    let (beat, f, c) = read_slot(k.1);
                    let err = fs::read_to_string(out.join(format!("stderr.{}", w))).unwrap_or_default();
                    let tail: String = err.chars().rev().take(400).collect::<Vec<_>>().into_iter().rev().collect();
                    use std::os::unix::process::ExitStatusExt;
                    let killed = st.signal() == Some(9);
                    if beat == 0 || f.is_empty() || killed {
                        // Not started, or ended from outside (memory guard): no verdict.
                        tool_error = Some(format!("worker {} ended: {} {}", w, st, tail));
                    } else {
                        violations.push((f, c, format!("the process died: {} {}", st, tail.trim())));
                    }
                }
            } else {
                let (beat, f, c) = read_slot(k.1);
                if beat != k.2 {
                    k.2 = beat;
                    k.3 = Instant::now();
                } else if k.3.elapsed().as_secs() > spec.stall {
                    if beat == 0 {
                        tool_error = Some(format!("worker {} never started", w));
                    } else {
                        violations.push((f, c, format!("no answer within {} s", spec.stall)));
                    }
                    break;
                }
            }
        }
    }
    for k in kids.iter_mut() {
        if !k.4 {
            let _ = k.0.kill();
            let _ = k.0.wait();
        }
    }
    if let Some(e) = tool_error {
        eprintln!("{}: internal error: {}", prop, e);
        let _ = fs::remove_dir_all(&out);
        std::process::exit(3);
    }
    // Merge.
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = Vec::new();
    let mut distinct: Vec<u64> = Vec::new();
    let mut known: Vec<String> = Vec::new();
    for w in 0..n {
        if let Ok(t) = fs::read_to_string(out.join(format!("counts.{}", w))) {
            for l in t.lines() {
                let (k, v) = l.rsplit_once(' ').unwrap();
                let v: u64 = v.parse().unwrap();
                let c = counts.entry(k.to_string()).or_insert(0);
                if k.starts_with("max:") {
                    *c = (*c).max(v);
                } else {
                    *c += v;
                }
            }
        }
        if let Ok(t) = fs::read_to_string(out.join(format!("samples.{}", w))) {
            for l in t.lines() {
                samples.push(l.to_string());
            }
        }
        if let Ok(b) = fs::read(out.join(format!("distinct.{}", w))) {
            distinct.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        }
        if let Ok(t) = fs::read_to_string(out.join(format!("known.{}", w))) {
            known.extend(t.lines().map(|s| s.to_string()));
        }
    }
    distinct.sort_unstable();
    distinct.dedup();
    samples.sort();
    samples.dedup();
    let samples: Vec<String> = if samples.len() > 24 {
        let k = samples.len();
        (0..24).map(|i| samples[i * k / 24].clone()).collect()
    } else {
        samples
    };
    let evals = counts.remove("evaluations").unwrap_or(0);
    if replay.is_none() {
        let mut e = String::from("{\n");
        e.push_str(&format!(" \"property\": {},\n \"tier\": {},\n", js(prop), js(tname)));
        e.push_str(&format!(
            " \"seed\": {},\n \"level\": {},\n",
            std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1),
            js(spec.level)
        ));
        e.push_str(" \"coverage\": {\n");
        e.push_str(&format!("  \"evaluations\": {},\n", evals));
        if spec.level == "model_checking" {
            for k in ["states", "transitions", "traces_validated_against_impl"] {
                // Model-side figures are the same in every worker: report the maximum.
                let v = counts.remove(&format!("max:{}", k)).or_else(|| counts.remove(k)).unwrap_or(0);
                e.push_str(&format!("  \"{}\": {},\n", k, v));
            }
        }
        e.push_str(&format!("  \"distinct_nontrivial\": {},\n", distinct.len()));
        e.push_str(&format!("  \"rule\": {},\n  \"bounds\": {},\n", js(spec.rule), js(spec.bounds)));
        e.push_str(&format!("  \"exhaustive\": {},\n", violations.is_empty()));
        let mut fams = Vec::new();
        let mut others = Vec::new();
        for (k, v) in &counts {
            if let Some(f) = k.strip_prefix("fam:") {
                fams.push(format!("{}: {}", js(f), v));
            } else {
                others.push(format!("{}: {}", js(k.trim_start_matches("max:")), v));
            }
        }
        e.push_str(&format!("  \"families\": {{{}}},\n", fams.join(", ")));
        e.push_str(&format!("  \"counters\": {{{}}},\n", others.join(", ")));
        e.push_str(&format!("  \"samples\": [\n   {}\n  ]\n }},\n", samples.join(",\n   ")));
        let a: Vec<String> = spec.assumptions.iter().map(|s| js(s)).collect();
        e.push_str(&format!(" \"assumptions\": [{}],\n", a.join(", ")));
        e.push_str(&format!(
            " \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
            t0.elapsed().as_secs_f64(),
            violations.len()
        ));
        let dir = verif_dir().join("evidence");
        let _ = fs::create_dir_all(&dir);
        fs::write(dir.join(format!("{}.json", prop)), e).unwrap();
    }
    known.sort();
    known.dedup();
    for k in &known {
        println!("KNOWN-FINDING: property={} {}", prop, k);
    }
    if violations.is_empty() {
        if replay.is_some() {
            println!("{} replay: no violation", prop);
        } else {
            println!(
                "{} {}: held on {} executions ({} distinct non-trivial) in {:.1} s",
                prop,
                tname,
                evals,
                distinct.len(),
                t0.elapsed().as_secs_f64()
            );
        }
        let _ = fs::remove_dir_all(&out);
        std::io::stdout().flush().unwrap();
        std::process::exit(0);
    }
    let (f, c, m) = &violations[0];
    let dir = verif_dir().join("out").join("replays");
    fs::create_dir_all(&dir).unwrap();
    let path = dir.join(format!("{}-{}.json", prop, std::process::id()));
    fs::write(
        &path,
        format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"family\": {},\n \"case\": {},\n \"case_hex\": \"{}\",\n \"message\": {},\n \"replay_cmd\": {}\n}}\n",
            js(prop),
            js(tname),
            js(f),
            js(&String::from_utf8_lossy(c)),
            hex(c),
            js(m),
            js(&format!("{} {} --replay {}", exe.display(), tname, path.display()))
        ),
    )
    .unwrap();
    println!("violated: [{}] {}", f, String::from_utf8_lossy(c).chars().take(300).collect::<String>());
    println!("  {}", m.chars().take(1500).collect::<String>());
    println!("VIOLATION property={} replay={}", prop, path.display());
    let _ = fs::remove_dir_all(&out);
    std::io::stdout().flush().unwrap();
    std::process::exit(1);
}
