//! Instrumented user code: visitors, builders, keys, hashers, streams and values that record every
//! call and can fail, panic or run something else at any chosen one of them, with the reference
//! that derives the dictated calls from the document or the value.

pub mod dec;
pub mod refdrv;
pub mod serde_side;

use miniserde::Error;
use std::cell::{Cell, RefCell};

/// One call of user code. Builders, streams and nodes are identified by number.
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Null,
    Bool(bool),
    Str(String),
    Neg(i64),
    Non(u64),
    Float(f64),
    Seq(u32),
    Map(u32),
    Elem(u32),
    Key(u32, String),
    Fin(u32),
    /// A builder or a stream is dropped.
    Gone(u32),
    Begin(u32),
    Next(u32),
    /// Auxiliary points: key conversion, hashing, comparing, formatting, default hashers, drops of
    /// values and keys. Possible fault points, not part of the dictated trace.
    Aux(&'static str),
    /// A value or key is dropped.
    Dead(u32),
}
impl Ev {
    pub fn callback(&self) -> bool {
        !matches!(self, Ev::Gone(_) | Ev::Aux(_) | Ev::Dead(_))
    }
    pub fn dictated(&self) -> bool {
        !matches!(self, Ev::Aux(_) | Ev::Dead(_))
    }
    pub fn is_drop(&self) -> bool {
        matches!(self, Ev::Gone(_) | Ev::Dead(_))
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Act {
    Nothing,
    Err,
    Panic,
    Call,
}

/// The payload of an injected panic.
#[derive(Debug, PartialEq)]
pub struct Fault(pub usize);

thread_local! {
    static LOG: RefCell<Vec<Ev>> = const { RefCell::new(Vec::new()) };
    static ON: Cell<bool> = const { Cell::new(false) };
    static AT: Cell<usize> = const { Cell::new(usize::MAX) };
    /// Also panic at this point.
    static ALSO: Cell<usize> = const { Cell::new(usize::MAX) };
    static ACT: Cell<Act> = const { Cell::new(Act::Nothing) };
    static IDS: Cell<u32> = const { Cell::new(0) };
    static VALS: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
    static BAD: RefCell<Option<String>> = const { RefCell::new(None) };
    static HOOK: RefCell<Option<Box<dyn FnMut(usize)>>> = const { RefCell::new(None) };
}

/// What a run of user code produced.
pub struct Run<R> {
    pub result: std::thread::Result<R>,
    pub log: Vec<Ev>,
    /// Values and keys created and not yet dropped once everything is gone.
    pub alive: usize,
    pub bad: Option<String>,
}

pub fn complain(m: String) {
    BAD.with(|b| {
        let mut b = b.borrow_mut();
        if b.is_none() {
            *b = Some(m);
        }
    })
}

/// Runs `f`, recording; at point number `at` the action is taken. `then` disposes of the result
/// while drops are still tracked.
pub fn run<R, Q>(at: usize, act: Act, f: impl FnOnce() -> R, then: impl FnOnce(R) -> Q) -> Run<Q> {
    reset(at, act);
    ON.with(|o| o.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    ON.with(|o| o.set(false));
    let log = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
    let result = r.map(then);
    let alive = VALS.with(|v| std::mem::take(&mut *v.borrow_mut())).iter().filter(|s| **s == 1).count();
    let bad = BAD.with(|b| b.borrow_mut().take());
    Run { result, log, alive, bad }
}
fn reset(at: usize, act: Act) {
    LOG.with(|l| l.borrow_mut().clear());
    AT.with(|x| x.set(at));
    ACT.with(|x| x.set(act));
    IDS.with(|x| x.set(0));
    VALS.with(|v| v.borrow_mut().clear());
    BAD.with(|b| *b.borrow_mut() = None);
}
/// The recorder of an outer run while an inner one takes place.
pub struct Saved(Vec<Ev>, bool, usize, Act, u32, Vec<u8>, Option<String>);
pub fn save() -> Saved {
    let s = Saved(
        LOG.with(|l| std::mem::take(&mut *l.borrow_mut())),
        ON.with(|x| x.replace(false)),
        AT.with(|x| x.replace(usize::MAX)),
        ACT.with(|x| x.replace(Act::Nothing)),
        IDS.with(|x| x.replace(0)),
        VALS.with(|v| std::mem::take(&mut *v.borrow_mut())),
        BAD.with(|b| b.borrow_mut().take()),
    );
    s
}
pub fn restore(s: Saved) {
    LOG.with(|l| *l.borrow_mut() = s.0);
    ON.with(|x| x.set(s.1));
    AT.with(|x| x.set(s.2));
    ACT.with(|x| x.set(s.3));
    IDS.with(|x| x.set(s.4));
    VALS.with(|v| *v.borrow_mut() = s.5);
    BAD.with(|b| *b.borrow_mut() = s.6);
}
/// The next runs also panic at this point (a second fault).
pub fn also_panic_at(n: usize) {
    ALSO.with(|a| a.set(n))
}
pub fn set_hook(h: Option<Box<dyn FnMut(usize)>>) {
    HOOK.with(|x| *x.borrow_mut() = h);
}

/// Records a call and takes the planned action.
pub fn point(ev: Ev) -> Result<(), Error> {
    if !ON.with(|o| o.get()) {
        return Ok(());
    }
    let n = LOG.with(|l| {
        let mut l = l.borrow_mut();
        l.push(ev.clone());
        l.len() - 1
    });
    if n == ALSO.with(|a| a.get()) && !std::thread::panicking() {
        std::panic::resume_unwind(Box::new(Fault(n)))
    }
    if n != AT.with(|a| a.get()) && AT.with(|a| a.get()) != usize::MAX - 1 {
        return Ok(());
    }
    match ACT.with(|a| a.get()) {
        Act::Nothing => Ok(()),
        Act::Err => {
            if ev.callback() || ev == Ev::Aux("convert") {
                Err(Error)
            } else {
                Ok(())
            }
        }
        Act::Panic => {
            if std::thread::panicking() {
                return Ok(());
            }
            std::panic::resume_unwind(Box::new(Fault(n)))
        }
        Act::Call => {
            let h = HOOK.with(|h| h.borrow_mut().take());
            if let Some(mut h) = h {
                h(n);
                HOOK.with(|x| *x.borrow_mut() = Some(h));
            }
            Ok(())
        }
    }
}
/// At which every point takes the action.
pub const EVERY: usize = usize::MAX - 1;

pub fn new_id() -> u32 {
    IDS.with(|i| {
        let n = i.get();
        i.set(n + 1);
        n
    })
}
/// Registers a tracked value.
pub fn born() -> u32 {
    VALS.with(|v| {
        let mut v = v.borrow_mut();
        v.push(1);
        v.len() as u32 - 1
    })
}
pub fn dead(id: u32) {
    let st = VALS.with(|v| {
        let mut v = v.borrow_mut();
        match v.get_mut(id as usize) {
            Some(s) => std::mem::replace(s, 2),
            None => 0,
        }
    });
    if st != 1 {
        complain(format!("value {} dropped {}", id, if st == 2 { "twice" } else { "without having been created" }));
    }
    let _ = point(Ev::Dead(id));
}

/// Builders or streams alive after the first `k + 1` events, innermost last. A seq/map/begin call
/// that failed creates nothing.
pub fn live_after(log: &[Ev], k: usize, failed: &[usize]) -> Vec<u32> {
    let mut live = Vec::new();
    for (i, e) in log[..=k].iter().enumerate() {
        match e {
            Ev::Seq(id) | Ev::Map(id) if !failed.contains(&i) => live.push(*id),
            Ev::Gone(id) => {
                live.retain(|x| x != id);
            }
            _ => {}
        }
    }
    live
}
/// The only builder or stream drops allowed after event `k`: the live ones, innermost first.
pub fn unwinds(log: &[Ev], k: usize, failed: &[usize]) -> Result<(), String> {
    let mut want = live_after(log, k, failed);
    for e in &log[k + 1..] {
        match e {
            Ev::Gone(id) => {
                if want.pop() != Some(*id) {
                    return Err(format!("builder {} dropped out of order: {:?}", id, &log[k..]));
                }
            }
            Ev::Dead(_) => {}
            // Moving what was dropped may compare or format nothing; no other user code may run.
            other => return Err(format!("{:?} called after the failure", other)),
        }
    }
    if let Some(id) = want.last() {
        return Err(format!("builder {} never dropped", id));
    }
    Ok(())
}
