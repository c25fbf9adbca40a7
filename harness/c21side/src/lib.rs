//! One side of C21: miniserde in one feature configuration behind a C interface. The driver loads
//! this library twice, built with and without the std feature, and compares what they answer.

use miniserde::de::{self, Deserialize, Visitor};
use miniserde::json::{from_str, to_string, Array, Number, Object, Value};
use miniserde::ser::{self, Fragment};
use mc_derives::{Chooser, Make};
use miniserde::{make_place, Serialize};
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Says exactly what a value is.
pub trait Tell {
    fn tell(&self, o: &mut String);
}
macro_rules! plain { ($($t:ty)*) => { $( impl Tell for $t { fn tell(&self, o: &mut String) { let _ = write!(o, "{:?}", self); } } )* } }
plain! { () bool u8 u16 u32 u64 usize i8 i16 i32 i64 isize String }
impl Tell for f64 {
    fn tell(&self, o: &mut String) {
        let _ = write!(o, "d{:x}", self.to_bits());
    }
}
impl Tell for f32 {
    fn tell(&self, o: &mut String) {
        let _ = write!(o, "f{:x}", self.to_bits());
    }
}
impl<T: Tell> Tell for Box<T> {
    fn tell(&self, o: &mut String) {
        (**self).tell(o)
    }
}
impl<T: Tell> Tell for Option<T> {
    fn tell(&self, o: &mut String) {
        match self {
            None => o.push('-'),
            Some(x) => x.tell(o),
        }
    }
}
impl<A: Tell, B: Tell> Tell for (A, B) {
    fn tell(&self, o: &mut String) {
        o.push('(');
        self.0.tell(o);
        o.push(',');
        self.1.tell(o);
        o.push(')');
    }
}
fn list<'a, T: Tell + 'a>(it: impl Iterator<Item = &'a T>, o: &mut String) {
    o.push('[');
    for x in it {
        x.tell(o);
        o.push(',');
    }
    o.push(']');
}
impl<T: Tell> Tell for Vec<T> {
    fn tell(&self, o: &mut String) {
        list(self.iter(), o)
    }
}
impl<T: Tell, const N: usize> Tell for [T; N] {
    fn tell(&self, o: &mut String) {
        list(self.iter(), o)
    }
}
impl<K: Tell, V: Tell> Tell for BTreeMap<K, V> {
    fn tell(&self, o: &mut String) {
        o.push('{');
        for (k, v) in self {
            k.tell(o);
            o.push(':');
            v.tell(o);
            o.push(',');
        }
        o.push('}');
    }
}
impl Tell for Number {
    fn tell(&self, o: &mut String) {
        let _ = match self {
            Number::U64(n) => write!(o, "u{}", n),
            Number::I64(n) => write!(o, "i{}", n),
            Number::F64(n) => write!(o, "d{:x}", n.to_bits()),
        };
        let _ = write!(o, "~{}~{:?}", self, self);
    }
}
impl Tell for Array {
    fn tell(&self, o: &mut String) {
        list(self.iter(), o)
    }
}
impl Tell for Object {
    fn tell(&self, o: &mut String) {
        o.push('{');
        for (k, v) in self {
            k.tell(o);
            o.push(':');
            v.tell(o);
            o.push(',');
        }
        o.push('}');
    }
}
fn tell_value(v: &Value, o: &mut String) {
    match v {
        Value::Null => o.push('n'),
        Value::Bool(b) => b.tell(o),
        Value::Number(n) => n.tell(o),
        Value::String(s) => s.tell(o),
        Value::Array(a) => a.tell(o),
        Value::Object(m) => m.tell(o),
    }
}
impl Tell for Value {
    fn tell(&self, o: &mut String) {
        tell_value(self, o)
    }
}

/// Accepts anything and writes down every call it gets.
struct Calls;
thread_local!(static LOG: RefCell<String> = const { RefCell::new(String::new()) });
fn log(s: &str) {
    LOG.with(|l| l.borrow_mut().push_str(s))
}
impl Tell for Calls {
    fn tell(&self, o: &mut String) {
        o.push('c')
    }
}
make_place!(Place);
impl Deserialize for Calls {
    fn begin(out: &mut Option<Self>) -> &mut dyn Visitor {
        log("B");
        Place::new(out)
    }
}
impl Visitor for Place<Calls> {
    fn null(&mut self) -> miniserde::Result<()> {
        log("n");
        self.out = Some(Calls);
        Ok(())
    }
    fn boolean(&mut self, b: bool) -> miniserde::Result<()> {
        log(if b { "t" } else { "f" });
        self.out = Some(Calls);
        Ok(())
    }
    fn string(&mut self, s: &str) -> miniserde::Result<()> {
        log(&format!("{:?}", s));
        self.out = Some(Calls);
        Ok(())
    }
    fn negative(&mut self, n: i64) -> miniserde::Result<()> {
        log(&format!("-{}", n));
        self.out = Some(Calls);
        Ok(())
    }
    fn nonnegative(&mut self, n: u64) -> miniserde::Result<()> {
        log(&format!("+{}", n));
        self.out = Some(Calls);
        Ok(())
    }
    fn float(&mut self, n: f64) -> miniserde::Result<()> {
        log(&format!("d{:x}", n.to_bits()));
        self.out = Some(Calls);
        Ok(())
    }
    fn seq(&mut self) -> miniserde::Result<Box<dyn de::Seq + '_>> {
        log("[");
        Ok(Box::new(Builder { out: &mut self.out, e: None }))
    }
    fn map(&mut self) -> miniserde::Result<Box<dyn de::Map + '_>> {
        log("{");
        Ok(Box::new(Builder { out: &mut self.out, e: None }))
    }
}
struct Builder<'a> {
    out: &'a mut Option<Calls>,
    e: Option<Calls>,
}
impl<'a> de::Seq for Builder<'a> {
    fn element(&mut self) -> miniserde::Result<&mut dyn Visitor> {
        log("e");
        self.e = None;
        Ok(Deserialize::begin(&mut self.e))
    }
    fn finish(&mut self) -> miniserde::Result<()> {
        log("]");
        *self.out = Some(Calls);
        Ok(())
    }
}
impl<'a> de::Map for Builder<'a> {
    fn key(&mut self, k: &str) -> miniserde::Result<&mut dyn Visitor> {
        log(&format!("k{:?}", k));
        self.e = None;
        match k {
            "no" => Err(miniserde::Error),
            "skip" => Ok(<dyn Visitor>::ignore()),
            _ => Ok(Deserialize::begin(&mut self.e)),
        }
    }
    fn finish(&mut self) -> miniserde::Result<()> {
        log("}");
        *self.out = Some(Calls);
        Ok(())
    }
}
impl<'a> Drop for Builder<'a> {
    fn drop(&mut self) {
        log("~");
    }
}

#[derive(miniserde::Deserialize, miniserde::Serialize)]
struct Empty {}

type Go = fn(&str, &mut String);
fn told<T: Deserialize + Tell>(d: &str, o: &mut String) {
    LOG.with(|l| l.borrow_mut().clear());
    match from_str::<T>(d) {
        Ok(x) => x.tell(o),
        Err(e) => {
            let _ = write!(o, "!{}|{:?}", e, e);
        }
    }
    LOG.with(|l| o.push_str(&l.borrow()));
}
fn text<T: Deserialize + Serialize>(d: &str, o: &mut String) {
    match from_str::<T>(d) {
        Ok(x) => o.push_str(&to_string(&x)),
        Err(e) => {
            let _ = write!(o, "!{}|{:?}", e, e);
        }
    }
}
fn both<T: Deserialize + Tell + Serialize>(d: &str, o: &mut String) {
    match from_str::<T>(d) {
        Ok(x) => {
            x.tell(o);
            o.push_str(&to_string(&x));
        }
        Err(e) => {
            let _ = write!(o, "!{}|{:?}", e, e);
        }
    }
}
fn value(d: &str, o: &mut String) {
    match from_str::<Value>(d) {
        Ok(x) => {
            x.tell(o);
            o.push_str(&to_string(&x));
            let _ = write!(o, "{:?}", x);
            let mut y = <Value as Default>::default();
            y.clone_from(&x);
            y.tell(o);
            match (x, y) {
                (Value::Array(a), Value::Array(mut b)) => {
                    let b2: Array = b.iter_mut().map(std::mem::take).collect();
                    let _ = write!(o, "{:?}", b2);
                    for x in a {
                        x.tell(o);
                    }
                }
                (Value::Object(a), Value::Object(mut b)) => {
                    let b2: Object = (&mut b).into_iter().map(|(k, v)| (k.clone(), std::mem::take(v))).collect();
                    let _ = write!(o, "{:?}", b2);
                    for (k, x) in a {
                        k.tell(o);
                        x.tell(o);
                    }
                }
                _ => {}
            }
        }
        Err(e) => {
            let _ = write!(o, "!{}|{:?}", e, e);
        }
    }
}

macro_rules! ts { ($v:ident $f:ident: $($t:ty),* $(,)?) => { $( $v.push((stringify!($t), $f::<$t> as Go)); )* } }
macro_rules! derived { ($([$t:ty])*) => { vec![$( (stringify!($t), text::<$t> as Go) ),*] } }
macro_rules! made { ($([$t:ty])*) => { vec![$( (stringify!($t), made::<$t> as fn(usize, &mut String)) ),*] } }
/// Every value with few unusual members (at most n of them), its text, the text of what it parses
/// back as, and of what every truncation of it does.
fn made<T: Make + Deserialize + Serialize>(n: usize, o: &mut String) {
    let mut c = Chooser::new(1);
    let mut i = 0;
    while !c.done && i < n {
        let t = to_string(&T::make(&mut c));
        o.push_str(&t);
        text::<T>(&t, o);
        if i == 0 {
            for k in 0..t.len() {
                if t.is_char_boundary(k) {
                    text::<T>(&t[..k], o);
                }
            }
        }
        o.push('\n');
        c.next();
        i += 1;
    }
}
/// Answers about the i-th derived type; nothing when there are fewer.
#[no_mangle]
pub unsafe extern "C" fn c21_made(i: usize, n: usize, out: *mut *const u8) -> usize {
    let mut v = mc_derives::structs!(made);
    v.extend(mc_derives::enums!(made));
    give(
        |o| {
            if let Some(t) = v.get(i) {
                o.push_str(t.0);
                o.push('\n');
                (t.1)(n, o);
            }
        },
        out,
    )
}
fn types() -> Vec<(&'static str, Go)> {
    let mut v: Vec<(&'static str, Go)> = vec![("Value", value)];
    ts! { v told: Calls }
    ts! { v text: Empty }
    ts! { v both: f64, Number, String, u64, i64, f32, u8, i8, bool, (), Option<Value>, Vec<Value>, BTreeMap<String, Value>, (Value, Value), [Value; 2], Array, Object,
        u16, u32, usize, i16, i32, isize, Box<Value>, Option<u8>, Option<Option<bool>>, Vec<u8>, Vec<Option<String>>, Vec<f64>, Vec<()>, [u8; 0], [u8; 1], [String; 3], (u8, String), (f64, (bool, ())), Box<Vec<Box<u8>>>, Box<[Box<u8>; 2]>,
        BTreeMap<u8, u8>, BTreeMap<i64, Option<u8>>, BTreeMap<bool, ()>, BTreeMap<String, BTreeMap<u64, Vec<bool>>>, Option<Box<BTreeMap<i8, [u8; 1]>>>, Vec<(String, f32)>, [[u8; 2]; 2], BTreeMap<String, Array> }
    ts! { v told: Option<Calls>, Vec<Calls>, [Calls; 2], (Calls, Calls), BTreeMap<String, Calls>, Box<Option<Calls>>, BTreeMap<u8, Calls> }
    v.extend(mc_derives::structs!(derived));
    v.extend(mc_derives::enums!(derived));
    v
}

thread_local!(static OUT: RefCell<String> = const { RefCell::new(String::new()) });
thread_local!(static TYPES: Vec<(&'static str, Go)> = types());

fn give(f: impl FnOnce(&mut String), out: *mut *const u8) -> usize {
    OUT.with(|o| {
        let mut o = o.borrow_mut();
        o.clear();
        if catch_unwind(AssertUnwindSafe(|| f(&mut o))).is_err() {
            o.push_str("PANIC");
        }
        unsafe { *out = o.as_ptr() };
        o.len()
    })
}

#[no_mangle]
pub extern "C" fn c21_quiet() -> bool {
    std::panic::set_hook(Box::new(|_| ()));
    cfg!(feature = "std")
}
#[no_mangle]
pub extern "C" fn c21_types() -> usize {
    TYPES.with(|t| t.len())
}
#[no_mangle]
pub unsafe extern "C" fn c21_name(i: usize, out: *mut *const u8) -> usize {
    give(|o| o.push_str(TYPES.with(|t| t[i].0)), out)
}
/// The answers of the types from a to b, one per line.
#[no_mangle]
pub unsafe extern "C" fn c21_parse(a: usize, b: usize, p: *const u8, n: usize, out: *mut *const u8) -> usize {
    let d = std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n));
    give(
        |o| {
            TYPES.with(|t| {
                for t in &t[a..b] {
                    (t.1)(d, o);
                    o.push('\n');
                }
            })
        },
        out,
    )
}

/// Streams written by hand: what the serializer asks of them and makes of their answers.
struct Hand<'a> {
    items: &'a [Hand<'a>],
    kind: u8,
    s: &'a str,
}
impl<'a> Serialize for Hand<'a> {
    fn begin(&self) -> Fragment {
        log("b");
        match self.kind {
            0 => Fragment::Null,
            1 => Fragment::Bool(true),
            2 => Fragment::Str(Cow::Borrowed(self.s)),
            3 => Fragment::Str(Cow::Owned(self.s.to_string())),
            4 => Fragment::U64(self.s.len() as u64),
            5 => Fragment::I64(-(self.s.len() as i64)),
            6 => Fragment::F64(self.s.len() as f64 / 8.0),
            7 => Fragment::Seq(Box::new(Stream { h: self, i: 0 })),
            _ => Fragment::Map(Box::new(Stream { h: self, i: 0 })),
        }
    }
}
struct Stream<'a> {
    h: &'a Hand<'a>,
    i: usize,
}
impl<'a> ser::Seq for Stream<'a> {
    fn next(&mut self) -> Option<&dyn Serialize> {
        log("s");
        self.i += 1;
        self.h.items.get(self.i - 1).map(|x| x as &dyn Serialize)
    }
}
impl<'a> ser::Map for Stream<'a> {
    fn next(&mut self) -> Option<(Cow<str>, &dyn Serialize)> {
        log("m");
        self.i += 1;
        self.h.items.get(self.i - 1).map(|x| (if self.i % 2 == 0 { Cow::Borrowed(x.s) } else { Cow::Owned(x.s.to_string()) }, x as &dyn Serialize))
    }
}
impl<'a> Drop for Stream<'a> {
    fn drop(&mut self) {
        log("~");
    }
}

/// The texts of values made from the bytes.
#[no_mangle]
pub unsafe extern "C" fn c21_say(kind: u32, p: *const u8, n: usize, out: *mut *const u8) -> usize {
    let b = std::slice::from_raw_parts(p, n);
    let word = || {
        let mut w = [0; 8];
        w[..n.min(8)].copy_from_slice(&b[..n.min(8)]);
        u64::from_le_bytes(w)
    };
    LOG.with(|l| l.borrow_mut().clear());
    give(
        |o| {
            macro_rules! say { ($($e:expr),* $(,)?) => { $( o.push_str(&to_string(&$e)); o.push('\n'); )* } }
            match kind {
                0 => {
                    let w = word();
                    say!(w, w as u32, w as u16, w as u8, w as usize, w as i64, w as i32, w as i16, w as i8, w as isize);
                    say!(Number::U64(w), Number::I64(w as i64), Value::Number(Number::U64(w)), Value::Number(Number::I64(w as i64)));
                    let _ = write!(o, "{} {:?}", Number::U64(w), Number::I64(w as i64));
                }
                1 => {
                    let x = f64::from_bits(word());
                    say!(x, Number::F64(x), Value::Number(Number::F64(x)));
                    let _ = write!(o, "{} {:?}", Number::F64(x), Number::F64(x));
                }
                2 => {
                    let x = f32::from_bits(word() as u32);
                    say!(x);
                }
                3 => {
                    let s = std::str::from_utf8_unchecked(b);
                    say!(s, s.to_string(), Value::String(s.into()), BTreeMap::from([(s.to_string(), ())]), [s, s], Cow::<str>::Owned(s.into()), Some(&Box::new(s)));
                    say!(Value::Object([(s.to_string(), Value::Null)].into_iter().collect()));
                    let _ = write!(o, "{:?}", Value::String(s.into()));
                }
                _ => {
                    let s = "ab\\\n\u{1f}é";
                    fn hand<'a>(b: &mut &[u8], s: &'a str, leak: &mut Vec<(*mut Hand<'a>, usize)>) -> Hand<'a> {
                        let k = b.first().copied().unwrap_or(0);
                        *b = b.get(1..).unwrap_or(&[]);
                        let kind = k % 9;
                        let mut items = Vec::new();
                        if kind >= 7 {
                            for _ in 0..k / 9 {
                                items.push(hand(b, s, leak));
                            }
                        }
                        let l = items.len();
                        let p = Box::into_raw(items.into_boxed_slice());
                        leak.push((p as *mut Hand, l));
                        Hand { items: unsafe { &*p }, kind, s: &s[..[0, 1, 2, 3, 4, 5, 7][k as usize % 7]] }
                    }
                    let mut leak = Vec::new();
                    let mut rest = b;
                    let h = hand(&mut rest, s, &mut leak);
                    say!(h, (&h, Some(&h)), [&h, &h], vec![&h], BTreeMap::from([("k".to_string(), &h)]), Box::new(&h));
                    LOG.with(|l| o.push_str(&l.borrow()));
                    drop(h);
                    for (p, l) in leak {
                        drop(unsafe { Box::from_raw(std::ptr::slice_from_raw_parts_mut(p, l)) });
                    }
                }
            }
        },
        out,
    )
}
