//! What a serialized text must denote, per type; written from the meaning of the types.

use crate::RV;
use mc_core::num::{num_ref, NumRef};
use miniserde::json::{Array, Number, Object, Value};
use miniserde::ser::{Fragment, Map, Seq};
use miniserde::Serialize;
use std::borrow::Cow;
use std::collections::BTreeMap;
#[cfg(feature = "std")]
use std::collections::HashMap;

pub trait Says {
    /// `got` (read by the reference reader) denotes exactly this value.
    fn says(&self, got: &RV) -> bool;
}

pub fn int_says(n: i128, got: &RV) -> bool {
    matches!(got, RV::Num(l) if matches!(num_ref(l), NumRef::Int(w, neg) if w == n && (!neg || n != 0)))
}
/// The text must read back, in any conforming parser, as the identical double.
pub fn float_says(x: f64, got: &RV) -> bool {
    match got {
        RV::Null => !x.is_finite(),
        RV::Num(l) => x.is_finite() && l.parse::<f64>().map_or(false, |y| y.to_bits() == x.to_bits()),
        _ => false,
    }
}

impl Says for () {
    fn says(&self, got: &RV) -> bool {
        *got == RV::Null
    }
}
impl Says for bool {
    fn says(&self, got: &RV) -> bool {
        *got == RV::Bool(*self)
    }
}
impl Says for str {
    fn says(&self, got: &RV) -> bool {
        matches!(got, RV::Str(s) if s == self)
    }
}
impl Says for String {
    fn says(&self, got: &RV) -> bool {
        self.as_str().says(got)
    }
}
macro_rules! ints { ($($t:ty)*) => { $( impl Says for $t {
    fn says(&self, got: &RV) -> bool { int_says(*self as i128, got) }
} )* } }
ints! { u8 u16 u32 u64 usize i8 i16 i32 i64 isize }
impl Says for f32 {
    fn says(&self, got: &RV) -> bool {
        float_says(*self as f64, got)
    }
}
impl Says for f64 {
    fn says(&self, got: &RV) -> bool {
        float_says(*self, got)
    }
}
impl<T: ?Sized + Says> Says for &T {
    fn says(&self, got: &RV) -> bool {
        (**self).says(got)
    }
}
impl<T: ?Sized + Says> Says for Box<T> {
    fn says(&self, got: &RV) -> bool {
        (**self).says(got)
    }
}
impl<T: ?Sized + Says + ToOwned> Says for Cow<'_, T> {
    fn says(&self, got: &RV) -> bool {
        (**self).says(got)
    }
}
impl<T: Says> Says for Option<T> {
    fn says(&self, got: &RV) -> bool {
        match self {
            Some(x) => x.says(got),
            None => *got == RV::Null,
        }
    }
}
impl<A: Says, B: Says> Says for (A, B) {
    fn says(&self, got: &RV) -> bool {
        matches!(got, RV::Arr(a) if a.len() == 2 && self.0.says(&a[0]) && self.1.says(&a[1]))
    }
}
impl<T: Says> Says for [T] {
    fn says(&self, got: &RV) -> bool {
        matches!(got, RV::Arr(a) if a.len() == self.len() && self.iter().zip(a).all(|(x, y)| x.says(y)))
    }
}
impl<T: Says> Says for Vec<T> {
    fn says(&self, got: &RV) -> bool {
        self.as_slice().says(got)
    }
}
impl<T: Says, const N: usize> Says for [T; N] {
    fn says(&self, got: &RV) -> bool {
        self.as_slice().says(got)
    }
}
impl<K: ToString, V: Says> Says for BTreeMap<K, V> {
    fn says(&self, got: &RV) -> bool {
        matches!(got, RV::Obj(o) if o.len() == self.len()
            && self.iter().zip(o).all(|((k, v), (l, w))| k.to_string() == *l && v.says(w)))
    }
}
#[cfg(feature = "std")]
impl<K: ToString, V: Says, H> Says for HashMap<K, V, H> {
    fn says(&self, got: &RV) -> bool {
        // A permutation: every entry is matched by a different written one.
        let RV::Obj(o) = got else { return false };
        let mut left: BTreeMap<&str, Vec<&RV>> = BTreeMap::new();
        for (k, v) in o {
            left.entry(k).or_default().push(v);
        }
        o.len() == self.len()
            && self.iter().all(|(k, v)| {
                let k = k.to_string();
                match left.get_mut(k.as_str()) {
                    Some(ws) => match ws.iter().position(|w| v.says(w)) {
                        Some(i) => {
                            ws.swap_remove(i);
                            true
                        }
                        None => false,
                    },
                    None => false,
                }
            })
    }
}
impl Says for Number {
    fn says(&self, got: &RV) -> bool {
        match self {
            Number::U64(n) => n.says(got),
            Number::I64(n) => n.says(got),
            Number::F64(n) => n.says(got),
        }
    }
}
impl Says for Value {
    fn says(&self, got: &RV) -> bool {
        match self {
            Value::Null => *got == RV::Null,
            Value::Bool(b) => b.says(got),
            Value::Number(n) => n.says(got),
            Value::String(s) => s.says(got),
            Value::Array(a) => a.says(got),
            Value::Object(o) => o.says(got),
        }
    }
}
impl Says for Array {
    fn says(&self, got: &RV) -> bool {
        (**self).says(got)
    }
}
impl Says for Object {
    fn says(&self, got: &RV) -> bool {
        (**self).says(got)
    }
}

/// A hand-written serializable tree that uses every kind of fragment and key.
#[derive(Clone, Debug)]
pub enum Item {
    Null,
    Bool(bool),
    /// Text and whether it is handed out owned.
    Str(String, bool),
    U64(u64),
    I64(i64),
    F64(f64),
    Seq(Vec<Item>),
    /// Keys are handed out owned or borrowed.
    Map(Vec<(String, bool, Item)>),
}
struct S<'a>(std::slice::Iter<'a, Item>);
impl Seq for S<'_> {
    fn next(&mut self) -> Option<&dyn Serialize> {
        self.0.next().map(|x| x as &dyn Serialize)
    }
}
struct M<'a>(std::slice::Iter<'a, (String, bool, Item)>);
impl Map for M<'_> {
    fn next(&mut self) -> Option<(Cow<'_, str>, &dyn Serialize)> {
        let (k, o, v) = self.0.next()?;
        Some((if *o { Cow::Owned(k.clone()) } else { Cow::Borrowed(k) }, v))
    }
}
impl Serialize for Item {
    fn begin(&self) -> Fragment<'_> {
        match self {
            Item::Null => Fragment::Null,
            Item::Bool(b) => Fragment::Bool(*b),
            Item::Str(s, true) => Fragment::Str(Cow::Owned(s.clone())),
            Item::Str(s, false) => Fragment::Str(Cow::Borrowed(s)),
            Item::U64(n) => Fragment::U64(*n),
            Item::I64(n) => Fragment::I64(*n),
            Item::F64(n) => Fragment::F64(*n),
            Item::Seq(v) => Fragment::Seq(Box::new(S(v.iter()))),
            Item::Map(v) => Fragment::Map(Box::new(M(v.iter()))),
        }
    }
}
impl Says for Item {
    fn says(&self, got: &RV) -> bool {
        match (self, got) {
            (Item::Null, RV::Null) => true,
            (Item::Bool(b), _) => b.says(got),
            (Item::Str(s, _), _) => s.says(got),
            (Item::U64(n), _) => n.says(got),
            (Item::I64(n), _) => n.says(got),
            (Item::F64(n), _) => n.says(got),
            (Item::Seq(v), _) => v.says(got),
            (Item::Map(v), RV::Obj(o)) => {
                v.len() == o.len() && v.iter().zip(o).all(|((k, _, x), (l, y))| k == l && x.says(y))
            }
            _ => false,
        }
    }
}
impl Item {
    /// From a reference tree; numbers cycle through the fragment kinds that can carry them.
    pub fn of(v: &RV, owned: bool) -> Item {
        match v {
            RV::Null => Item::Null,
            RV::Bool(b) => Item::Bool(*b),
            RV::Str(s) => Item::Str(s.clone(), owned),
            RV::Num(l) => match num_ref(l) {
                NumRef::Int(n, _) if n >= 0 && owned => Item::U64(n as u64),
                NumRef::Int(n, _) if n > i64::MAX as i128 => Item::U64(n as u64),
                NumRef::Int(n, _) => Item::I64(n as i64),
                NumRef::Float { v, .. } => Item::F64(v),
                NumRef::TooBig => Item::F64(f64::INFINITY),
            },
            RV::Arr(a) => Item::Seq(a.iter().map(|x| Item::of(x, !owned)).collect()),
            RV::Obj(o) => Item::Map(o.iter().map(|(k, x)| (k.clone(), owned, Item::of(x, !owned))).collect()),
        }
    }
}
