//! Instrumented deserialization.

use crate::refdrv::Sh;
use crate::*;
use miniserde::de::{Deserialize, Map, Seq, Visitor};
use miniserde::{make_place, Result};
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};
use std::hash::{BuildHasher, Hash, Hasher};
use std::str::FromStr;

make_place!(Place);

/// A value of any kind; its visitor accepts everything.
pub struct P {
    id: u32,
    pub kids: Vec<P>,
    /// Detects access after the drop or before the creation.
    canary: Box<u32>,
}
impl P {
    pub fn new() -> P {
        let id = born();
        P { id, kids: Vec::new(), canary: Box::new(!id) }
    }
}
impl Drop for P {
    fn drop(&mut self) {
        if *self.canary != !self.id {
            complain(format!("value {} is overwritten", self.id));
        }
        dead(self.id)
    }
}
impl Deserialize for P {
    fn begin(out: &mut Option<Self>) -> &mut dyn Visitor {
        let _ = point(Ev::Aux("begin"));
        Place::new(out)
    }
}
impl Place<P> {
    fn scalar(&mut self, e: Ev) -> Result<()> {
        point(e)?;
        self.out = Some(P::new());
        Ok(())
    }
}
impl Visitor for Place<P> {
    fn null(&mut self) -> Result<()> {
        self.scalar(Ev::Null)
    }
    fn boolean(&mut self, b: bool) -> Result<()> {
        self.scalar(Ev::Bool(b))
    }
    fn string(&mut self, s: &str) -> Result<()> {
        let r = self.scalar(Ev::Str(s.to_owned()));
        // The text must still be there after whatever the callback did.
        recheck(s);
        r
    }
    fn negative(&mut self, n: i64) -> Result<()> {
        self.scalar(Ev::Neg(n))
    }
    fn nonnegative(&mut self, n: u64) -> Result<()> {
        self.scalar(Ev::Non(n))
    }
    fn float(&mut self, n: f64) -> Result<()> {
        self.scalar(Ev::Float(n))
    }
    fn seq(&mut self) -> Result<Box<dyn Seq + '_>> {
        let id = new_id();
        point(Ev::Seq(id))?;
        Ok(Box::new(B::new(id, &mut self.out)))
    }
    fn map(&mut self) -> Result<Box<dyn Map + '_>> {
        let id = new_id();
        point(Ev::Map(id))?;
        Ok(Box::new(B::new(id, &mut self.out)))
    }
}
fn recheck(s: &str) {
    // Compares with the copy recorded for the call that is in progress.
    let ok = LOG.with(|l| {
        let l = l.borrow();
        !ON.with(|o| o.get())
            || match l.iter().rev().find(|e| matches!(e, Ev::Str(_) | Ev::Key(..))) {
                Some(Ev::Str(t)) | Some(Ev::Key(_, t)) => t == s,
                _ => true,
            }
    });
    if !ok {
        complain(format!("text changed during the callback to {:?}", s));
    }
}
struct B<'a> {
    id: u32,
    out: &'a mut Option<P>,
    kids: Vec<P>,
    slot: Option<P>,
    canary: Box<u32>,
}
impl<'a> B<'a> {
    fn new(id: u32, out: &'a mut Option<P>) -> Self {
        B { id, out, kids: Vec::new(), slot: None, canary: Box::new(id ^ 0x5555) }
    }
    fn check(&self) {
        if *self.canary != self.id ^ 0x5555 {
            complain(format!("builder {} used when it is not alive", self.id));
        }
    }
    fn end(&mut self) -> Result<()> {
        self.check();
        point(Ev::Fin(self.id))?;
        self.kids.extend(self.slot.take());
        let mut p = P::new();
        p.kids = std::mem::take(&mut self.kids);
        *self.out = Some(p);
        Ok(())
    }
}
impl Drop for B<'_> {
    fn drop(&mut self) {
        self.check();
        // Touches the place it borrows from the outer builder.
        if let Some(p) = &*self.out {
            if *p.canary != !p.id {
                complain(format!("builder {} outlives the place it fills", self.id));
            }
        }
        *self.canary = 0;
        let _ = point(Ev::Gone(self.id));
    }
}
impl Seq for B<'_> {
    fn element(&mut self) -> Result<&mut dyn Visitor> {
        self.check();
        point(Ev::Elem(self.id))?;
        self.kids.extend(self.slot.take());
        Ok(Deserialize::begin(&mut self.slot))
    }
    fn finish(&mut self) -> Result<()> {
        self.end()
    }
}
impl Map for B<'_> {
    fn key(&mut self, k: &str) -> Result<&mut dyn Visitor> {
        self.check();
        let r = point(Ev::Key(self.id, k.to_owned()));
        recheck(k);
        r?;
        self.kids.extend(self.slot.take());
        Ok(Deserialize::begin(&mut self.slot))
    }
    fn finish(&mut self) -> Result<()> {
        self.end()
    }
}

/// A user map key: conversion, hashing, comparing and dropping are fault points.
pub struct K {
    text: Box<str>,
    id: u32,
}
impl FromStr for K {
    type Err = miniserde::Error;
    fn from_str(s: &str) -> std::result::Result<K, miniserde::Error> {
        point(Ev::Aux("convert"))?;
        Ok(K { text: s.into(), id: born() })
    }
}
impl Drop for K {
    fn drop(&mut self) {
        dead(self.id)
    }
}
impl PartialEq for K {
    fn eq(&self, o: &K) -> bool {
        let _ = point(Ev::Aux("eq"));
        self.text == o.text
    }
}
impl Eq for K {}
impl Hash for K {
    fn hash<H: Hasher>(&self, h: &mut H) {
        let _ = point(Ev::Aux("hash"));
        self.text.hash(h)
    }
}
impl PartialOrd for K {
    fn partial_cmp(&self, o: &K) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for K {
    fn cmp(&self, o: &K) -> Ordering {
        let _ = point(Ev::Aux("cmp"));
        self.text.cmp(&o.text)
    }
}
/// A deterministic hasher whose construction is a fault point.
pub struct HB(());
impl Default for HB {
    fn default() -> HB {
        let _ = point(Ev::Aux("default hasher"));
        HB(())
    }
}
pub struct H(u64);
impl BuildHasher for HB {
    type Hasher = H;
    fn build_hasher(&self) -> H {
        let _ = point(Ev::Aux("build hasher"));
        H(7)
    }
}
impl Hasher for H {
    fn write(&mut self, b: &[u8]) {
        for b in b {
            self.0 = (self.0 ^ *b as u64).wrapping_mul(0x100000001b3);
        }
    }
    fn finish(&self) -> u64 {
        let _ = point(Ev::Aux("finish hash"));
        self.0
    }
}

/// Target types together with their shape.
pub trait Shaped: Deserialize {
    fn sh() -> Sh;
}
impl Shaped for P {
    fn sh() -> Sh {
        Sh::P
    }
}
impl Shaped for u8 {
    fn sh() -> Sh {
        Sh::U8
    }
}
impl<T: Shaped> Shaped for Vec<T> {
    fn sh() -> Sh {
        Sh::Vec(Box::new(T::sh()))
    }
}
impl<T: Shaped> Shaped for Box<T> {
    fn sh() -> Sh {
        T::sh()
    }
}
impl<T: Shaped> Shaped for Option<T> {
    fn sh() -> Sh {
        Sh::Opt(Box::new(T::sh()))
    }
}
impl<A: Shaped, B: Shaped> Shaped for (A, B) {
    fn sh() -> Sh {
        Sh::Pair(Box::new((A::sh(), B::sh())))
    }
}
impl<T: Shaped, const N: usize> Shaped for [T; N] {
    fn sh() -> Sh {
        Sh::Arr(N, Box::new(T::sh()))
    }
}
impl<T: Shaped, Q: FromStr + Ord> Shaped for BTreeMap<Q, T> {
    fn sh() -> Sh {
        Sh::Map(Box::new(T::sh()))
    }
}
impl<T: Shaped, Q: FromStr + Hash + Eq, S: BuildHasher + Default> Shaped for HashMap<Q, T, S> {
    fn sh() -> Sh {
        Sh::Map(Box::new(T::sh()))
    }
}

#[derive(miniserde::Deserialize)]
pub struct St {
    pub a: P,
    pub b: Option<P>,
    pub c: Vec<P>,
}
impl Shaped for St {
    fn sh() -> Sh {
        Sh::Struct(vec![("a", Sh::P, false), ("b", Option::<P>::sh(), true), ("c", Vec::<P>::sh(), false)])
    }
}
#[derive(miniserde::Deserialize)]
pub struct G<T> {
    pub a: T,
}
impl<T: Shaped> Shaped for G<T> {
    fn sh() -> Sh {
        Sh::Struct(vec![("a", T::sh(), matches!(T::sh(), Sh::Opt(_)))])
    }
}
#[derive(miniserde::Deserialize)]
pub struct Rec {
    pub a: P,
    pub b: Option<Box<Rec>>,
}
impl Shaped for Rec {
    fn sh() -> Sh {
        fn go(n: usize) -> Sh {
            Sh::Struct(vec![("a", Sh::P, false), ("b", Sh::Opt(Box::new(if n == 0 { Sh::No } else { go(n - 1) })), true)])
        }
        go(6)
    }
}
#[derive(miniserde::Deserialize)]
pub struct Empty {}
impl Shaped for Empty {
    fn sh() -> Sh {
        Sh::Struct(vec![])
    }
}

/// Parses, recording, with the action at the given point; the result is dropped.
pub fn go<T: Shaped>(doc: &str, at: usize, act: Act) -> Run<bool> {
    run(at, act, || miniserde::json::from_str::<T>(doc), |r| r.is_ok())
}
pub struct Target {
    pub name: &'static str,
    pub sh: Sh,
    pub go: fn(&str, usize, Act) -> Run<bool>,
    /// Contains a std HashMap with tracked values: its own drop leaks when a value's drop panics.
    pub hash: bool,
}
macro_rules! targets { ($($t:ty),* $(,)?) => { vec![$( Target { name: stringify!($t), sh: <$t>::sh(), go: go::<$t>, hash: stringify!($t).contains("HashMap") } ),*] } }
pub fn targets() -> Vec<Target> {
    type HK<T> = HashMap<K, T, HB>;
    let mut t = targets![
        P, Vec<P>, Option<P>, Box<P>, (P, P), [P; 2], BTreeMap<K, P>, St,
        [P; 0], [P; 3], Vec<Vec<P>>, Vec<Option<P>>, Option<Vec<P>>, Box<Vec<P>>, Box<Option<P>>, Option<Box<P>>, Box<Box<P>>, Vec<Box<P>>,
        (P, Vec<P>), ([P; 1], Option<P>), Box<(P, Option<P>)>, [Box<P>; 2], [Vec<P>; 2], [[P; 2]; 2], [(P, P); 2], Option<[P; 2]>, Box<[P; 2]>, Vec<[P; 2]>,
        BTreeMap<K, Vec<P>>, BTreeMap<K, BTreeMap<K, P>>, BTreeMap<String, Option<P>>, Box<BTreeMap<K, P>>, Option<BTreeMap<K, Box<P>>>, Vec<BTreeMap<K, P>>, BTreeMap<K, [P; 2]>,
        Vec<St>, Option<Box<St>>, Box<St>, G<P>, G<G<P>>, G<Box<G<Option<P>>>>, G<[P; 2]>, G<(P, St)>, Rec, Vec<Rec>, BTreeMap<K, St>, Empty, Vec<Empty>, Box<Box<St>>,
        (St, St), [St; 1], Box<G<Vec<P>>>, Option<Option<P>>, Box<Option<Box<Vec<P>>>>,
    ];
    let mut h = targets![HK<P>, HK<Vec<P>>, HK<St>, HK<HK<P>>, Vec<HK<P>>, Box<HK<P>>, Option<HK<Box<P>>>, HK<[P; 2]>, HK<u8>];
    for x in &mut h {
        x.hash = true;
    }
    t.extend(h);
    t
}
