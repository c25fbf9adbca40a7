//! Instrumented serialization.

use crate::*;
use mc_core::rv::RV;
use miniserde::ser::{Fragment, Map, Seq};
use miniserde::Serialize;
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};
use std::fmt;

/// How a container hands out its children.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Style {
    /// References into the value.
    Stored,
    /// Each child is built into the stream itself, over the previous one.
    Lent,
}
#[derive(Debug)]
pub enum Body {
    Null,
    Bool(bool),
    Str(String, bool),
    U64(u64),
    I64(i64),
    F64(f64),
    Seq(Style, Vec<N>),
    /// Key, whether it is owned.
    Map(Style, Vec<(String, bool, N)>),
}
/// A node; `begin` is recorded under its number.
#[derive(Debug)]
pub struct N {
    pub id: u32,
    pub body: Body,
    /// Set for copies that streams make of their children.
    copy: Option<u32>,
    canary: Box<u32>,
}
impl N {
    pub fn new(id: u32, body: Body) -> N {
        N { id, body, copy: None, canary: Box::new(!id) }
    }
    fn dup(&self) -> N {
        let body = match &self.body {
            Body::Null => Body::Null,
            Body::Bool(b) => Body::Bool(*b),
            Body::Str(s, o) => Body::Str(s.clone(), *o),
            Body::U64(n) => Body::U64(*n),
            Body::I64(n) => Body::I64(*n),
            Body::F64(n) => Body::F64(*n),
            Body::Seq(s, v) => Body::Seq(*s, v.iter().map(N::dup).collect()),
            Body::Map(s, v) => Body::Map(*s, v.iter().map(|(k, o, x)| (k.clone(), *o, x.dup())).collect()),
        };
        N { id: self.id, body, copy: Some(born()), canary: Box::new(!self.id) }
    }
    fn check(&self) {
        if *self.canary != !self.id {
            complain(format!("node {} used when it is not alive", self.id));
        }
    }
}
impl Drop for N {
    fn drop(&mut self) {
        self.check();
        *self.canary = 0;
        if let Some(c) = self.copy {
            dead(c);
        }
    }
}
/// A recorded stream.
struct Stream<'a> {
    id: u32,
    n: usize,
    over: bool,
    lent: bool,
    seq: &'a [N],
    map: &'a [(String, bool, N)],
    cur: Option<N>,
    key: String,
    canary: Box<u32>,
}
impl<'a> Stream<'a> {
    fn next(&mut self) -> Option<(Option<Cow<'_, str>>, &N)> {
        if *self.canary != !self.id {
            complain(format!("stream {} used when it is not alive", self.id));
        }
        let _ = point(Ev::Next(self.id));
        if self.over {
            complain(format!("stream {} asked again after it ended", self.id));
        }
        let i = self.n;
        self.n += 1;
        if i >= self.seq.len().max(self.map.len()) {
            self.over = true;
            self.cur = None;
            return None;
        }
        let (k, src): (Option<(&'a str, bool)>, &'a N) = match self.seq.get(i) {
            Some(x) => (None, x),
            None => (Some((&self.map[i].0, self.map[i].1)), &self.map[i].2),
        };
        let node: &N = if self.lent {
            // Overwrites what was lent before.
            self.cur = None;
            self.cur = Some(src.dup());
            self.cur.as_ref().unwrap()
        } else {
            src
        };
        let key = match k {
            None => None,
            Some((k, true)) => Some(Cow::Owned(k.to_owned())),
            Some((k, false)) if self.lent => {
                // The text of the previous key is destroyed.
                unsafe { self.key.as_bytes_mut().fill(b'#') };
                self.key.clear();
                self.key.push_str(k);
                Some(Cow::Borrowed(self.key.as_str()))
            }
            Some((k, false)) => Some(Cow::Borrowed(k)),
        };
        Some((key, node))
    }
}
impl Drop for Stream<'_> {
    fn drop(&mut self) {
        if *self.canary != !self.id {
            complain(format!("stream {} dropped twice", self.id));
        }
        *self.canary = 0;
        let _ = point(Ev::Gone(self.id));
    }
}
struct SeqS<'a>(Stream<'a>);
struct MapS<'a>(Stream<'a>);
impl Seq for SeqS<'_> {
    fn next(&mut self) -> Option<&dyn Serialize> {
        self.0.next().map(|(_, n)| n as &dyn Serialize)
    }
}
impl Map for MapS<'_> {
    fn next(&mut self) -> Option<(Cow<'_, str>, &dyn Serialize)> {
        self.0.next().map(|(k, n)| (k.unwrap(), n as &dyn Serialize))
    }
}
impl Serialize for N {
    fn begin(&self) -> Fragment<'_> {
        self.check();
        let _ = point(Ev::Begin(self.id));
        let stream = |style: Style, seq, map| Stream {
            id: self.id,
            n: 0,
            over: false,
            lent: style == Style::Lent,
            seq,
            map,
            cur: None,
            key: String::new(),
            canary: Box::new(!self.id),
        };
        match &self.body {
            Body::Null => Fragment::Null,
            Body::Bool(b) => Fragment::Bool(*b),
            Body::Str(s, true) => Fragment::Str(Cow::Owned(s.clone())),
            Body::Str(s, false) => Fragment::Str(Cow::Borrowed(s)),
            Body::U64(n) => Fragment::U64(*n),
            Body::I64(n) => Fragment::I64(*n),
            Body::F64(n) => Fragment::F64(*n),
            Body::Seq(st, v) => {
                open(self.id);
                Fragment::Seq(Box::new(SeqS(stream(*st, v, &[]))))
            }
            Body::Map(st, v) => {
                open(self.id);
                Fragment::Map(Box::new(MapS(stream(*st, &[], v))))
            }
        }
    }
}
/// Marks the stream of a node as alive, for `live_after`.
fn open(id: u32) {
    let _ = point(Ev::Seq(id));
}

/// A key whose text form is a fault point.
#[derive(PartialEq, Eq, Hash, PartialOrd, Ord, Clone, Debug)]
pub struct TK(pub String);
impl fmt::Display for TK {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let _ = point(Ev::Aux("format key"));
        f.write_str(&self.0)
    }
}

/// A value with the calls and the content it dictates.
pub trait Told: Serialize {
    fn calls(&self, out: &mut Vec<Ev>);
    fn content(&self) -> RV;
}
impl Told for N {
    fn calls(&self, out: &mut Vec<Ev>) {
        out.push(Ev::Begin(self.id));
        let kids: Vec<&N> = match &self.body {
            Body::Seq(_, v) => v.iter().collect(),
            Body::Map(_, v) => v.iter().map(|e| &e.2).collect(),
            _ => return,
        };
        out.push(Ev::Seq(self.id));
        for k in kids {
            out.push(Ev::Next(self.id));
            k.calls(out);
        }
        out.push(Ev::Next(self.id));
        out.push(Ev::Gone(self.id));
    }
    fn content(&self) -> RV {
        match &self.body {
            Body::Null => RV::Null,
            Body::Bool(b) => RV::Bool(*b),
            Body::Str(s, _) => RV::Str(s.clone()),
            Body::U64(n) => RV::Num(n.to_string()),
            Body::I64(n) => RV::Num(n.to_string()),
            Body::F64(n) if n.is_finite() => RV::Num(format!("{:?}", n)),
            Body::F64(_) => RV::Null,
            Body::Seq(_, v) => RV::Arr(v.iter().map(N::content).collect()),
            Body::Map(_, v) => RV::Obj(v.iter().map(|(k, _, x)| (k.clone(), x.content())).collect()),
        }
    }
}
impl<T: Told> Told for Vec<T> {
    fn calls(&self, out: &mut Vec<Ev>) {
        self.iter().for_each(|x| x.calls(out))
    }
    fn content(&self) -> RV {
        RV::Arr(self.iter().map(T::content).collect())
    }
}
impl<T: Told, const M: usize> Told for [T; M] {
    fn calls(&self, out: &mut Vec<Ev>) {
        self.iter().for_each(|x| x.calls(out))
    }
    fn content(&self) -> RV {
        RV::Arr(self.iter().map(T::content).collect())
    }
}
impl<T: Told + ?Sized> Told for Box<T> {
    fn calls(&self, out: &mut Vec<Ev>) {
        (**self).calls(out)
    }
    fn content(&self) -> RV {
        (**self).content()
    }
}
impl<T: Told + ?Sized> Told for &T {
    fn calls(&self, out: &mut Vec<Ev>) {
        (**self).calls(out)
    }
    fn content(&self) -> RV {
        (**self).content()
    }
}
impl<T: Told> Told for Option<T> {
    fn calls(&self, out: &mut Vec<Ev>) {
        self.iter().for_each(|x| x.calls(out))
    }
    fn content(&self) -> RV {
        self.as_ref().map_or(RV::Null, T::content)
    }
}
impl<A: Told, B: Told> Told for (A, B) {
    fn calls(&self, out: &mut Vec<Ev>) {
        self.0.calls(out);
        self.1.calls(out);
    }
    fn content(&self) -> RV {
        RV::Arr(vec![self.0.content(), self.1.content()])
    }
}
impl<T: Told> Told for BTreeMap<TK, T> {
    fn calls(&self, out: &mut Vec<Ev>) {
        self.values().for_each(|x| x.calls(out))
    }
    fn content(&self) -> RV {
        RV::Obj(self.iter().map(|(k, v)| (k.0.clone(), v.content())).collect())
    }
}
impl<T: Told, S: std::hash::BuildHasher> Told for HashMap<TK, T, S> {
    fn calls(&self, out: &mut Vec<Ev>) {
        self.values().for_each(|x| x.calls(out))
    }
    fn content(&self) -> RV {
        RV::Obj(self.iter().map(|(k, v)| (k.0.clone(), v.content())).collect())
    }
}
#[derive(Serialize)]
pub struct Rs<'a> {
    pub a: N,
    pub b: Option<&'a N>,
    pub c: Vec<Box<N>>,
}
impl Told for Rs<'_> {
    fn calls(&self, out: &mut Vec<Ev>) {
        self.a.calls(out);
        self.b.calls(out);
        self.c.calls(out);
    }
    fn content(&self) -> RV {
        RV::Obj(vec![("a".into(), self.a.content()), ("b".into(), self.b.content()), ("c".into(), self.c.content())])
    }
}

/// Builds a node tree from a shape; `style` and `owned` alternate from the given start.
pub fn node(v: &RV, mix: usize, ids: &mut u32) -> N {
    let id = *ids;
    *ids += 1;
    let bit = |k: u32| (mix >> ((id + k) % 5)) & 1 == 1;
    let style = if bit(0) { Style::Lent } else { Style::Stored };
    let body = match v {
        RV::Null => Body::Null,
        RV::Bool(b) => Body::Bool(*b),
        RV::Str(s) => Body::Str(s.clone(), bit(1)),
        RV::Num(l) => match mc_core::num::num_ref(l) {
            mc_core::num::NumRef::Int(n, false) => Body::U64(n as u64),
            mc_core::num::NumRef::Int(n, true) => Body::I64(n as i64),
            mc_core::num::NumRef::Float { v, .. } => Body::F64(v),
            mc_core::num::NumRef::TooBig => Body::F64(f64::NAN),
        },
        RV::Arr(a) => Body::Seq(style, a.iter().map(|x| node(x, mix, ids)).collect()),
        RV::Obj(o) => Body::Map(style, o.iter().map(|(k, x)| (k.clone(), bit(k.len() as u32), node(x, mix, ids))).collect()),
    };
    N::new(id, body)
}

pub fn go(x: &dyn Told, at: usize, act: Act) -> Run<String> {
    run(at, act, || miniserde::json::to_string(x), |s| s)
}
