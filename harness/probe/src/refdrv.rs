//! The calls a document dictates, derived by reading it left to right with its own reader.

use crate::Ev;
use mc_core::num::{float_ok, num_ref, NumRef};
use mc_core::rv::{read_ok, RV};

#[derive(Clone, Debug)]
pub enum Sh {
    P,
    U8,
    /// Refuses everything.
    No,
    Ignore,
    Vec(Box<Sh>),
    Opt(Box<Sh>),
    Pair(Box<(Sh, Sh)>),
    Arr(usize, Box<Sh>),
    Map(Box<Sh>),
    /// Name, shape, may be absent.
    Struct(Vec<(&'static str, Sh, bool)>),
}

pub enum Want {
    Is(Ev),
    Num(String),
}
/// The dictated callbacks of a document, and whether the parse succeeds. When it does not, the
/// real calls are a prefix of these.
pub struct Dictated {
    pub calls: Vec<Want>,
    pub ok: bool,
    /// A number beyond the double range inside skipped content: left open.
    pub open: bool,
}

struct Drv<'a> {
    s: &'a str,
    i: usize,
    out: Vec<Want>,
    ids: u32,
    open: bool,
}
struct Stop;

pub fn dictated(doc: &str, sh: &Sh) -> Dictated {
    let mut d = Drv { s: doc, i: 0, out: Vec::new(), ids: 0, open: false };
    let mut ok = d.value(sh).is_ok();
    if ok {
        d.ws();
        ok = d.i == doc.len();
    }
    Dictated { calls: d.out, ok, open: d.open }
}

impl<'a> Drv<'a> {
    fn ws(&mut self) {
        while matches!(self.peek(), b' ' | b'\t' | b'\n' | b'\r') {
            self.i += 1;
        }
    }
    fn peek(&self) -> u8 {
        *self.s.as_bytes().get(self.i).unwrap_or(&0)
    }
    fn put(&mut self, e: Ev) {
        self.out.push(Want::Is(e));
    }
    /// A complete string literal at the current position, decoded.
    fn string(&mut self) -> Result<String, Stop> {
        let b = self.s.as_bytes();
        if self.peek() != b'"' {
            return Err(Stop);
        }
        let mut j = self.i + 1;
        while j < b.len() && b[j] != b'"' {
            j += if b[j] == b'\\' { 2 } else { 1 };
        }
        if j >= b.len() {
            return Err(Stop);
        }
        let lit = self.s.get(self.i..j + 1).ok_or(Stop)?;
        match read_ok(lit) {
            Some(RV::Str(t)) => {
                self.i = j + 1;
                Ok(t)
            }
            _ => Err(Stop),
        }
    }
    fn scalar(&mut self, sh: &Sh, w: Want) -> Result<(), Stop> {
        match sh {
            Sh::Ignore => Ok(()),
            Sh::P => {
                self.out.push(w);
                Ok(())
            }
            Sh::U8 => match w {
                Want::Num(l) if matches!(num_ref(&l), NumRef::Int(0..=255, false)) => Ok(()),
                _ => Err(Stop),
            },
            Sh::Opt(_) if matches!(w, Want::Is(Ev::Null)) => Ok(()),
            Sh::Opt(s) => self.scalar(s, w),
            _ => Err(Stop),
        }
    }
    fn word(&mut self, sh: &Sh, w: &str, e: Ev) -> Result<(), Stop> {
        if !self.s[self.i..].starts_with(w) {
            return Err(Stop);
        }
        self.i += w.len();
        self.scalar(sh, Want::Is(e))
    }
    fn value(&mut self, sh: &Sh) -> Result<(), Stop> {
        self.ws();
        match self.peek() {
            b'n' => self.word(sh, "null", Ev::Null),
            b't' => self.word(sh, "true", Ev::Bool(true)),
            b'f' => self.word(sh, "false", Ev::Bool(false)),
            b'"' => {
                let t = self.string()?;
                self.scalar(sh, Want::Is(Ev::Str(t)))
            }
            b'-' | b'0'..=b'9' => {
                let rest = &self.s[self.i..];
                let n = rest.bytes().take_while(|b| b.is_ascii_digit() || b"+-.eE".contains(b)).count();
                // The longest literal; text after it fails at the next token.
                let Some(m) = (1..=n).rev().find(|&m| matches!(read_ok(&rest[..m]), Some(RV::Num(_)))) else { return Err(Stop) };
                let lit = rest[..m].to_string();
                self.i += m;
                if matches!(num_ref(&lit), NumRef::TooBig) {
                    self.open |= matches!(sh, Sh::Ignore);
                    return Err(Stop);
                }
                self.scalar(sh, Want::Num(lit))
            }
            b'[' => {
                self.i += 1;
                self.seq(sh)
            }
            b'{' => {
                self.i += 1;
                self.map(sh)
            }
            _ => Err(Stop),
        }
    }
    fn seq(&mut self, sh: &Sh) -> Result<(), Stop> {
        let sh = match sh {
            Sh::Opt(s) => return self.seq(s),
            Sh::P | Sh::Ignore | Sh::Vec(_) | Sh::Pair(_) | Sh::Arr(..) => sh,
            _ => return Err(Stop),
        };
        let me = matches!(sh, Sh::P).then(|| {
            self.ids += 1;
            self.ids - 1
        });
        if let Some(id) = me {
            self.put(Ev::Seq(id));
        }
        let mut n = 0;
        self.ws();
        if self.peek() == b']' {
            self.i += 1;
        } else {
            loop {
                if let Some(id) = me {
                    self.put(Ev::Elem(id));
                }
                match sh {
                    Sh::P | Sh::Ignore => self.value(sh)?,
                    Sh::Vec(s) => self.value(s)?,
                    Sh::Arr(_, s) => self.value(s)?,
                    Sh::Pair(p) => match n {
                        0 => self.value(&p.0)?,
                        1 => self.value(&p.1)?,
                        _ => return Err(Stop),
                    },
                    _ => unreachable!(),
                }
                n += 1;
                self.ws();
                match self.peek() {
                    b',' => self.i += 1,
                    b']' => {
                        self.i += 1;
                        break;
                    }
                    _ => return Err(Stop),
                }
            }
        }
        match sh {
            Sh::Pair(_) if n != 2 => return Err(Stop),
            Sh::Arr(k, _) if n != *k => return Err(Stop),
            _ => {}
        }
        if let Some(id) = me {
            self.put(Ev::Fin(id));
            self.put(Ev::Gone(id));
        }
        Ok(())
    }
    fn map(&mut self, sh: &Sh) -> Result<(), Stop> {
        let sh = match sh {
            Sh::Opt(s) => return self.map(s),
            Sh::P | Sh::Ignore | Sh::Map(_) | Sh::Struct(_) => sh,
            _ => return Err(Stop),
        };
        let me = matches!(sh, Sh::P).then(|| {
            self.ids += 1;
            self.ids - 1
        });
        if let Some(id) = me {
            self.put(Ev::Map(id));
        }
        let mut seen: Vec<String> = Vec::new();
        self.ws();
        if self.peek() == b'}' {
            self.i += 1;
        } else {
            loop {
                self.ws();
                let k = self.string()?;
                if let Some(id) = me {
                    self.put(Ev::Key(id, k.clone()));
                }
                self.ws();
                if self.peek() != b':' {
                    return Err(Stop);
                }
                self.i += 1;
                match sh {
                    Sh::P | Sh::Ignore => self.value(sh)?,
                    Sh::Map(s) => self.value(s)?,
                    Sh::Struct(fs) => match fs.iter().find(|f| f.0 == k) {
                        Some(f) => self.value(&f.1)?,
                        None => self.value(&Sh::Ignore)?,
                    },
                    _ => unreachable!(),
                }
                seen.push(k);
                self.ws();
                match self.peek() {
                    b',' => self.i += 1,
                    b'}' => {
                        self.i += 1;
                        break;
                    }
                    _ => return Err(Stop),
                }
            }
        }
        if let Sh::Struct(fs) = sh {
            if fs.iter().any(|f| !f.2 && !seen.iter().any(|k| k == f.0)) {
                return Err(Stop);
            }
        }
        if let Some(id) = me {
            self.put(Ev::Fin(id));
            self.put(Ev::Gone(id));
        }
        Ok(())
    }
}

fn matches_ev(w: &Want, e: &Ev) -> bool {
    match w {
        Want::Is(x) => x == e,
        Want::Num(l) => match (num_ref(l), e) {
            (NumRef::Int(n, true), Ev::Neg(m)) => n == *m as i128,
            (NumRef::Int(n, false), Ev::Non(m)) => n == *m as i128,
            (NumRef::Int(0, true), Ev::Non(0)) => true,
            (NumRef::Float { v, must_exact, .. }, Ev::Float(x)) => float_ok(v, must_exact, *x),
            _ => false,
        },
    }
}
fn show(w: Option<&Want>) -> String {
    match w {
        None => "nothing".into(),
        Some(Want::Is(e)) => format!("{:?}", e),
        Some(Want::Num(l)) => format!("number {}", l),
    }
}
/// The calls `log` (dictated ones only) agree with the document: all of them when the parse
/// succeeds, otherwise a prefix followed by the drops of the live builders.
pub fn conforms(d: &Dictated, log: &[Ev], got_ok: bool) -> Result<(), String> {
    if d.open {
        return Ok(());
    }
    if got_ok != d.ok {
        return Err(if got_ok { "accepted, must be refused".into() } else { "refused, must be accepted".into() });
    }
    let log: Vec<&Ev> = log.iter().filter(|e| e.dictated()).collect();
    let mut n = 0;
    while n < log.len() && n < d.calls.len() && matches_ev(&d.calls[n], log[n]) {
        n += 1;
    }
    if d.ok {
        if n < log.len() || n < d.calls.len() {
            return Err(format!("call {} is {:?}, the document dictates {}", n, log.get(n), show(d.calls.get(n))));
        }
        return Ok(());
    }
    let all: Vec<Ev> = log.into_iter().cloned().collect();
    if n == 0 {
        return match all.first() {
            None => Ok(()),
            Some(e) => Err(format!("call 0 is {:?}, the document dictates {}", e, show(d.calls.first()))),
        };
    }
    if n < all.len() && !matches!(all[n], Ev::Gone(_)) {
        return Err(format!("call {} is {:?}, the document dictates {}", n, all[n], show(d.calls.get(n))));
    }
    crate::unwinds(&all, n - 1, &[])
}
