//! Reference meaning of parsing a document into each built-in target type, and comparison of what
//! miniserde returned with it. The conversions are written from the documentation of the types,
//! not from the visitors.

pub mod exact;
pub mod says;
pub mod deep;
pub mod vals;

use mc_core::num::{float_ok, num_ref, ulps, NumRef, ULP};
pub use mc_core::gen::Chooser;
pub use mc_core::rv::RV;
use miniserde::json::{Array, Number, Object, Value};
use miniserde::Deserialize;
use std::collections::BTreeMap;
#[cfg(feature = "std")]
use std::collections::HashMap;
#[cfg(feature = "std")]
use std::hash::{BuildHasher, Hash};
use std::str::FromStr;

/// Whether a document denotes a member of a type. `Maybe`: the property leaves it open (a minus
/// sign on zero for unsigned types; the few-ULP band around the largest double; numbers beyond the
/// double range inside skipped content).
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Tri {
    Yes,
    Maybe,
    No,
}

pub fn all(it: impl Iterator<Item = Tri>) -> Tri {
    it.max().unwrap_or(Tri::Yes)
}

pub trait Model: Sized {
    fn accepts(v: &RV) -> Tri;
    /// `self` is the right result for `v` (given that v is acceptable).
    fn is(&self, v: &RV) -> bool;
    /// Field default when absent (Some only for Option).
    fn absent_ok() -> bool {
        false
    }
    fn is_absent(&self) -> bool {
        false
    }
}

/// Compares an outcome with the model.
pub fn judge<T: Model>(v: Option<&RV>, got: &Result<T, miniserde::Error>) -> Result<(), String> {
    match (v, got) {
        (None, Ok(_)) => Err("accepted, must be refused".into()),
        (None, Err(_)) => Ok(()),
        (Some(v), Ok(x)) => match T::accepts(v) {
            Tri::No => Err("accepted, must be refused".into()),
            _ if x.is(v) => Ok(()),
            _ => Err("accepted with a wrong value".into()),
        },
        (Some(v), Err(_)) => match T::accepts(v) {
            Tri::Yes => Err("refused, must be accepted".into()),
            _ => Ok(()),
        },
    }
}

pub fn number_is(n: &Number, lit: &str) -> bool {
    match (num_ref(lit), n) {
        (NumRef::Int(w, _), Number::U64(g)) => w == *g as i128,
        (NumRef::Int(w, _), Number::I64(g)) => w == *g as i128,
        (NumRef::Float { v, must_exact, .. }, Number::F64(g)) => float_ok(v, must_exact, *g),
        _ => false,
    }
}

fn num_accept(lit: &str) -> Tri {
    match num_ref(lit) {
        NumRef::Int(..) => Tri::Yes,
        NumRef::Float { may_refuse: false, .. } => Tri::Yes,
        NumRef::Float { .. } => Tri::Maybe,
        NumRef::TooBig => Tri::No,
    }
}

impl Model for () {
    fn accepts(v: &RV) -> Tri {
        if *v == RV::Null {
            Tri::Yes
        } else {
            Tri::No
        }
    }
    fn is(&self, v: &RV) -> bool {
        *v == RV::Null
    }
}

impl Model for bool {
    fn accepts(v: &RV) -> Tri {
        if matches!(v, RV::Bool(_)) {
            Tri::Yes
        } else {
            Tri::No
        }
    }
    fn is(&self, v: &RV) -> bool {
        *v == RV::Bool(*self)
    }
}

impl Model for String {
    fn accepts(v: &RV) -> Tri {
        if matches!(v, RV::Str(_)) {
            Tri::Yes
        } else {
            Tri::No
        }
    }
    fn is(&self, v: &RV) -> bool {
        std::str::from_utf8(self.as_bytes()).is_ok() && matches!(v, RV::Str(s) if s == self)
    }
}

macro_rules! ints {
    ($($t:ident $lo:expr, $hi:expr;)*) => {$(
        impl Model for $t {
            fn accepts(v: &RV) -> Tri {
                match v {
                    RV::Num(l) => match num_ref(l) {
                        NumRef::Int(n, neg) => {
                            let (lo, hi): (i128, i128) = ($lo, $hi);
                            if n < lo || n > hi {
                                Tri::No
                            } else if n == 0 && neg && lo == 0 {
                                Tri::Maybe
                            } else {
                                Tri::Yes
                            }
                        }
                        _ => Tri::No,
                    },
                    _ => Tri::No,
                }
            }
            fn is(&self, v: &RV) -> bool {
                matches!(v, RV::Num(l) if matches!(num_ref(l), NumRef::Int(n, _) if n == *self as i128))
            }
        }
    )*};
}
ints! {
    u8 0, 255;
    u16 0, 65535;
    u32 0, 4294967295;
    u64 0, 18446744073709551615;
    usize 0, 18446744073709551615;
    i8 -128, 127;
    i16 -32768, 32767;
    i32 -2147483648, 2147483647;
    i64 -9223372036854775808, 9223372036854775807;
    isize -9223372036854775808, 9223372036854775807;
}

impl Model for f64 {
    fn accepts(v: &RV) -> Tri {
        match v {
            RV::Num(l) => num_accept(l),
            _ => Tri::No,
        }
    }
    fn is(&self, v: &RV) -> bool {
        match v {
            RV::Num(l) => match num_ref(l) {
                NumRef::Int(n, _) => *self == n as f64,
                NumRef::Float { v, must_exact, .. } => float_ok(v, must_exact, *self),
                NumRef::TooBig => false,
            },
            _ => false,
        }
    }
}

fn bump(x: f64, d: i64) -> f64 {
    // Moves a finite positive double by d representable values, stopping at 0 and MAX.
    let b = (x.to_bits() as i64 + d).clamp(0, f64::MAX.to_bits() as i64);
    f64::from_bits(b as u64)
}

impl Model for f32 {
    fn accepts(v: &RV) -> Tri {
        match v {
            RV::Num(l) => num_accept(l),
            _ => Tri::No,
        }
    }
    fn is(&self, v: &RV) -> bool {
        match v {
            RV::Num(l) => match num_ref(l) {
                NumRef::Int(n, _) => *self == n as f32 || *self == n as f64 as f32,
                NumRef::Float { v, must_exact, .. } => {
                    if must_exact {
                        return self.to_bits() == (v as f32).to_bits();
                    }
                    let a = v.abs();
                    let lo = bump(a, -(ULP as i64)) as f32;
                    let hi = bump(a, ULP as i64) as f32;
                    let s = self.abs();
                    self.is_sign_negative() == v.is_sign_negative() && lo <= s && s <= hi
                }
                NumRef::TooBig => false,
            },
            _ => false,
        }
    }
}

impl Model for Number {
    fn accepts(v: &RV) -> Tri {
        match v {
            RV::Num(l) => num_accept(l),
            _ => Tri::No,
        }
    }
    fn is(&self, v: &RV) -> bool {
        matches!(v, RV::Num(l) if number_is(self, l))
    }
}

impl Model for Value {
    fn accepts(v: &RV) -> Tri {
        match v {
            RV::Num(l) => num_accept(l),
            RV::Arr(a) => all(a.iter().map(Value::accepts)),
            RV::Obj(o) => all(o.iter().map(|(_, v)| Value::accepts(v))),
            _ => Tri::Yes,
        }
    }
    fn is(&self, v: &RV) -> bool {
        match (self, v) {
            (Value::Null, RV::Null) => true,
            (Value::Bool(a), RV::Bool(b)) => a == b,
            (Value::Number(n), RV::Num(l)) => number_is(n, l),
            (Value::String(a), RV::Str(b)) => std::str::from_utf8(a.as_bytes()).is_ok() && a == b,
            (Value::Array(a), RV::Arr(_)) => a.is(v),
            (Value::Object(a), RV::Obj(_)) => a.is(v),
            _ => false,
        }
    }
}

impl Model for Array {
    fn accepts(v: &RV) -> Tri {
        match v {
            RV::Arr(_) => Value::accepts(v),
            _ => Tri::No,
        }
    }
    fn is(&self, v: &RV) -> bool {
        match v {
            RV::Arr(b) => self.len() == b.len() && self.iter().zip(b).all(|(x, y)| x.is(y)),
            _ => false,
        }
    }
}

fn last_wins<'a>(o: &'a [(String, RV)]) -> BTreeMap<&'a str, &'a RV> {
    o.iter().map(|(k, v)| (k.as_str(), v)).collect()
}

impl Model for Object {
    fn accepts(v: &RV) -> Tri {
        match v {
            RV::Obj(_) => Value::accepts(v),
            _ => Tri::No,
        }
    }
    fn is(&self, v: &RV) -> bool {
        match v {
            RV::Obj(o) => {
                let m = last_wins(o);
                self.len() == m.len() && self.iter().zip(m).all(|((k, x), (l, y))| k == l && x.is(y))
            }
            _ => false,
        }
    }
}

impl<T: Model> Model for Box<T> {
    fn accepts(v: &RV) -> Tri {
        T::accepts(v)
    }
    fn is(&self, v: &RV) -> bool {
        (**self).is(v)
    }
}

impl<T: Model> Model for Option<T> {
    fn accepts(v: &RV) -> Tri {
        if *v == RV::Null {
            Tri::Yes
        } else {
            T::accepts(v)
        }
    }
    fn is(&self, v: &RV) -> bool {
        match (self, v) {
            (None, RV::Null) => true,
            (None, _) | (Some(_), RV::Null) => false,
            (Some(x), v) => x.is(v),
        }
    }
    fn absent_ok() -> bool {
        true
    }
    fn is_absent(&self) -> bool {
        self.is_none()
    }
}

impl<A: Model, B: Model> Model for (A, B) {
    fn accepts(v: &RV) -> Tri {
        match v {
            RV::Arr(a) if a.len() == 2 => A::accepts(&a[0]).max(B::accepts(&a[1])),
            _ => Tri::No,
        }
    }
    fn is(&self, v: &RV) -> bool {
        matches!(v, RV::Arr(a) if a.len() == 2 && self.0.is(&a[0]) && self.1.is(&a[1]))
    }
}

impl<T: Model> Model for Vec<T> {
    fn accepts(v: &RV) -> Tri {
        match v {
            RV::Arr(a) => all(a.iter().map(T::accepts)),
            _ => Tri::No,
        }
    }
    fn is(&self, v: &RV) -> bool {
        matches!(v, RV::Arr(a) if a.len() == self.len() && self.iter().zip(a).all(|(x, y)| x.is(y)))
    }
}

impl<T: Model, const N: usize> Model for [T; N] {
    fn accepts(v: &RV) -> Tri {
        match v {
            RV::Arr(a) if a.len() == N => all(a.iter().map(T::accepts)),
            _ => Tri::No,
        }
    }
    fn is(&self, v: &RV) -> bool {
        matches!(v, RV::Arr(a) if a.len() == N && self.iter().zip(a).all(|(x, y)| x.is(y)))
    }
}

fn map_accepts<K: FromStr, V: Model>(v: &RV) -> Tri {
    match v {
        RV::Obj(o) => all(o.iter().map(|(k, v)| {
            if K::from_str(k).is_err() {
                Tri::No
            } else {
                V::accepts(v)
            }
        })),
        _ => Tri::No,
    }
}

impl<K: FromStr + Ord, V: Model> Model for BTreeMap<K, V> {
    fn accepts(v: &RV) -> Tri {
        map_accepts::<K, V>(v)
    }
    fn is(&self, v: &RV) -> bool {
        match v {
            RV::Obj(o) => {
                // Association list, last binding wins, no map type involved.
                let mut want: Vec<(K, &RV)> = Vec::new();
                for (k, v) in o {
                    let Ok(k) = K::from_str(k) else { return false };
                    match want.iter_mut().find(|(l, _)| *l == k) {
                        Some(e) => e.1 = v,
                        None => want.push((k, v)),
                    }
                }
                self.len() == want.len() && want.iter().all(|(k, v)| self.get(k).map_or(false, |x| x.is(v)))
            }
            _ => false,
        }
    }
}

#[cfg(feature = "std")]
impl<K: FromStr + Hash + Eq, V: Model, H: BuildHasher> Model for HashMap<K, V, H> {
    fn accepts(v: &RV) -> Tri {
        map_accepts::<K, V>(v)
    }
    fn is(&self, v: &RV) -> bool {
        match v {
            RV::Obj(o) => {
                let mut want: Vec<(K, &RV)> = Vec::new();
                for (k, v) in o {
                    let Ok(k) = K::from_str(k) else { return false };
                    match want.iter_mut().find(|(l, _)| *l == k) {
                        Some(e) => e.1 = v,
                        None => want.push((k, v)),
                    }
                }
                self.len() == want.len() && want.iter().all(|(k, v)| self.get(k).map_or(false, |x| x.is(v)))
            }
            _ => false,
        }
    }
}

/// Content of skipped entries: any JSON; numbers beyond the double range are left open.
pub fn skip_accepts(v: &RV) -> Tri {
    if v.any_num(&mut |l| !matches!(num_ref(l), NumRef::Int(..) | NumRef::Float { may_refuse: false, .. })) {
        Tri::Maybe
    } else {
        Tri::Yes
    }
}

/// Builds every value of a type, driven by choices.
pub trait Make: Sized {
    fn make(c: &mut Chooser) -> Self;
}

macro_rules! makes {
    ($($t:ty: $($x:expr),*;)*) => {$( impl Make for $t {
        fn make(c: &mut Chooser) -> Self {
            let mut xs = vec![$($x),*];
            let i = c.choose(xs.len());
            xs.swap_remove(i)
        }
    } )*};
}
makes! {
    (): ();
    bool: true, false;
    u8: 1, 0, 255;
    u16: 2, 65535;
    u32: 3, 4294967295;
    u64: 4, u64::MAX, 0;
    usize: 5, usize::MAX;
    i8: -1, -128, 127;
    i16: -2, -32768, 32767;
    i32: -3, i32::MIN, i32::MAX;
    i64: -4, i64::MIN, i64::MAX, 0;
    isize: -5, isize::MIN, isize::MAX;
    f32: 0.5, 0.0, -1.5e-8, f32::MAX, f32::MIN_POSITIVE, 1e-45, 16777216.0;
    f64: 0.25, 0.0, -1.5e300, f64::MAX, f64::MIN_POSITIVE, 5e-324, 1e21, 123456789.0;
    String: "s".to_string(), String::new(), "a\"\\/\u{8}\u{c}\n\r\t\u{0}\u{1f}\u{7f}é😀\u{2028}".to_string(), "null".to_string();
    Number: Number::U64(6), Number::U64(u64::MAX), Number::I64(i64::MIN), Number::F64(2.5), Number::F64(-1e-300);
}
impl<T: Make> Make for Box<T> {
    fn make(c: &mut Chooser) -> Self {
        Box::new(T::make(c))
    }
}
impl<T: Make> Make for Option<T> {
    fn make(c: &mut Chooser) -> Self {
        match c.choose(2) {
            0 => Some(T::make(c)),
            _ => None,
        }
    }
}
impl<A: Make, B: Make> Make for (A, B) {
    fn make(c: &mut Chooser) -> Self {
        let a = A::make(c);
        (a, B::make(c))
    }
}
impl<T: Make> Make for Vec<T> {
    fn make(c: &mut Chooser) -> Self {
        let n = *c.pick(&[1, 0, 2, 3]);
        (0..n).map(|_| T::make(c)).collect()
    }
}
impl<T: Make, const N: usize> Make for [T; N] {
    fn make(c: &mut Chooser) -> Self {
        std::array::from_fn(|_| T::make(c))
    }
}
impl<V: Make> Make for BTreeMap<String, V> {
    fn make(c: &mut Chooser) -> Self {
        let ks = ["k", "", "a\"\n\\é😀\u{1}"];
        let n = *c.pick(&[1, 0, 2, 3]);
        (0..n).map(|i| (ks[i].to_string(), V::make(c))).collect()
    }
}
#[cfg(feature = "std")]
impl<V: Make> Make for HashMap<String, V> {
    fn make(c: &mut Chooser) -> Self {
        BTreeMap::make(c).into_iter().collect()
    }
}
impl Make for Value {
    fn make(c: &mut Chooser) -> Self {
        fn go(c: &mut Chooser, depth: usize) -> Value {
            match c.choose(if depth < 3 { 7 } else { 5 }) {
                0 => Value::Number(Number::U64(7)),
                1 => Value::Null,
                2 => Value::Bool(c.choose(2) == 0),
                3 => Value::String(String::make(c)),
                4 => Value::Number(Number::make(c)),
                5 => {
                    let n = *c.pick(&[1, 0, 2]);
                    Value::Array((0..n).map(|_| go(c, depth + 1)).collect())
                }
                _ => {
                    let ks = ["k", "a\"\n", ""];
                    let n = *c.pick(&[1, 0, 2]);
                    Value::Object((0..n).map(|i| (ks[i].to_string(), go(c, depth + 1))).collect())
                }
            }
        }
        go(c, 0)
    }
}
impl Make for Array {
    fn make(c: &mut Chooser) -> Self {
        let n = *c.pick(&[1, 0, 2]);
        (0..n).map(|_| Value::make(c)).collect()
    }
}
impl Make for Object {
    fn make(c: &mut Chooser) -> Self {
        BTreeMap::<String, Value>::make(c).into_iter().collect()
    }
}

/// What a derived definition looks like from outside.
pub struct Field {
    pub key: &'static str,
    pub accepts: fn(&RV) -> Tri,
    pub absent_ok: bool,
}
pub trait Def: Model {
    /// None for an enum.
    fn fields() -> Option<Vec<Field>>;
    fn variants() -> Vec<&'static str> {
        Vec::new()
    }
    /// The object or string that serialization must denote, with each field's own serialization
    /// inside.
    fn written(&self) -> RV;
}

/// A value's own serialization, read by the reference reader.
pub fn own<T: ?Sized + miniserde::Serialize>(x: &T) -> RV {
    let s = miniserde::json::to_string(x);
    mc_core::rv::read_ok(&s).unwrap_or_else(|| RV::Str(format!("INVALID JSON: {}", s)))
}

/// Reference model of a derived struct: `[generics] [Type] { field "name": Type, ... }`.
#[macro_export]
macro_rules! model_for {
    ([$($g:tt)*] [$($n:tt)*] { $( $f:ident $key:literal : $t:ty ),* $(,)? }) => {
        impl<$($g)*> $crate::Model for $($n)* {
            fn accepts(v: &$crate::RV) -> $crate::Tri {
                let o = match v { $crate::RV::Obj(o) => o, _ => return $crate::Tri::No };
                let mut r = $crate::Tri::Yes;
                let known: &[&str] = &[$($key),*];
                for (k, v) in o {
                    if !known.contains(&k.as_str()) {
                        r = r.max($crate::skip_accepts(v));
                    }
                    $( if k == $key { r = r.max(<$t as $crate::Model>::accepts(v)); } )*
                }
                $( if !o.iter().any(|(k, _)| k == $key) && !<$t as $crate::Model>::absent_ok() {
                    r = $crate::Tri::No;
                } )*
                r
            }
            fn is(&self, v: &$crate::RV) -> bool {
                let o = match v { $crate::RV::Obj(o) => o, _ => return false };
                let _ = o;
                $(
                    match o.iter().rev().find(|(k, _)| k == $key) {
                        Some((_, v)) => if !$crate::Model::is(&self.$f, v) { return false },
                        None => if !$crate::Model::is_absent(&self.$f) { return false },
                    }
                )*
                true
            }
        }
        impl<$($g)*> $crate::Def for $($n)* {
            fn fields() -> Option<Vec<$crate::Field>> {
                Some(vec![$( $crate::Field {
                    key: $key,
                    accepts: <$t as $crate::Model>::accepts,
                    absent_ok: <$t as $crate::Model>::absent_ok(),
                } ),*])
            }
            fn written(&self) -> $crate::RV {
                $crate::RV::Obj(vec![$( ($key.to_string(), $crate::own(&self.$f)) ),*])
            }
        }
        impl<$($g)*> $crate::Make for $($n)* {
            fn make(_c: &mut $crate::Chooser) -> Self {
                Self { $( $f: <$t as $crate::Make>::make(_c) ),* }
            }
        }
    };
}

/// Defines a struct (attributes included) together with its reference model.
#[macro_export]
macro_rules! model_struct {
    ($(#[$m:meta])* $name:ident { $( $(#[$fm:meta])* $f:ident $key:literal : $t:ty ),* $(,)? }) => {
        $(#[$m])*
        pub struct $name { $( $(#[$fm])* pub $f: $t ),* }
        $crate::model_for!([] [$name] { $( $f $key : $t ),* });
    };
}

/// Defines a C-like enum together with its reference model.
#[macro_export]
macro_rules! model_enum {
    ($(#[$m:meta])* $name:ident { $( $(#[$fm:meta])* $f:ident $key:literal $(= $d:expr)? ),* $(,)? }) => {
        $(#[$m])*
        pub enum $name { $( $(#[$fm])* $f $(= $d)? ),* }
        impl $crate::Model for $name {
            fn accepts(v: &$crate::RV) -> $crate::Tri {
                match v {
                    $crate::RV::Str(s) if [$($key),*].contains(&s.as_str()) => $crate::Tri::Yes,
                    _ => $crate::Tri::No,
                }
            }
            fn is(&self, v: &$crate::RV) -> bool {
                match (self, v) {
                    $( ($name::$f, $crate::RV::Str(s)) => s == $key, )*
                    _ => false,
                }
            }
        }
        impl $crate::Def for $name {
            fn fields() -> Option<Vec<$crate::Field>> {
                None
            }
            fn variants() -> Vec<&'static str> {
                vec![$($key),*]
            }
            fn written(&self) -> $crate::RV {
                match self {
                    $( $name::$f => $crate::RV::Str($key.to_string()), )*
                }
            }
        }
        impl $crate::Make for $name {
            fn make(c: &mut $crate::Chooser) -> Self {
                let names: &[&str] = &[$($key),*];
                let i = c.choose(names.len());
                let mut _k = 0;
                $( if i == _k { return $name::$f } _k += 1; )*
                unreachable!()
            }
        }
    };
}

pub fn parse<T: Deserialize>(s: &str) -> Result<T, miniserde::Error> {
    miniserde::json::from_str(s)
}

/// Two untyped values are equal; doubles up to `ulp`.
pub fn same_value(a: &Value, b: &Value, ulp: u64) -> bool {
    match (a, b) {
        (Value::Null, Value::Null) => true,
        (Value::Bool(x), Value::Bool(y)) => x == y,
        (Value::String(x), Value::String(y)) => x == y,
        (Value::Number(x), Value::Number(y)) => match (x, y) {
            (Number::F64(x), Number::F64(y)) => {
                x.to_bits() == y.to_bits() || (x.is_finite() && y.is_finite() && ulps(*x, *y) <= ulp)
            }
            (x, y) => int_of(x).is_some() && int_of(x) == int_of(y),
        },
        (Value::Array(x), Value::Array(y)) => {
            x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| same_value(p, q, ulp))
        }
        (Value::Object(x), Value::Object(y)) => {
            x.len() == y.len() && x.iter().zip(y.iter()).all(|((k, p), (l, q))| k == l && same_value(p, q, ulp))
        }
        _ => false,
    }
}

pub fn int_of(n: &Number) -> Option<i128> {
    match n {
        Number::U64(x) => Some(*x as i128),
        Number::I64(x) => Some(*x as i128),
        Number::F64(_) => None,
    }
}

/// A miniserde Value with the content of a reference tree (last-wins).
pub fn to_value(v: &RV) -> Value {
    match v {
        RV::Null => Value::Null,
        RV::Bool(b) => Value::Bool(*b),
        RV::Str(s) => Value::String(s.clone()),
        RV::Num(l) => Value::Number(match num_ref(l) {
            NumRef::Int(n, _) if n >= 0 => Number::U64(n as u64),
            NumRef::Int(n, _) => Number::I64(n as i64),
            NumRef::Float { v, .. } => Number::F64(v),
            NumRef::TooBig => panic!("no value for {}", l),
        }),
        RV::Arr(a) => Value::Array(a.iter().map(to_value).collect()),
        RV::Obj(o) => {
            let mut m = Object::new();
            for (k, v) in o {
                m.insert(k.clone(), to_value(v));
            }
            Value::Object(m)
        }
    }
}
