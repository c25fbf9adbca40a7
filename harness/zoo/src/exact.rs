//! Equality after a round trip: exact, except that doubles may differ by a few units in the last
//! place (with the same sign).

use mc_core::num::{ulps, ULP};
use miniserde::json::{Array, Number, Object, Value};
use std::collections::BTreeMap;
#[cfg(feature = "std")]
use std::collections::HashMap;
#[cfg(feature = "std")]
use std::hash::{BuildHasher, Hash};

pub trait Exact {
    fn same(&self, o: &Self) -> bool;
}
macro_rules! eqs { ($($t:ty)*) => { $( impl Exact for $t { fn same(&self, o: &Self) -> bool { self == o } } )* } }
eqs! { () bool char String u8 u16 u32 u64 usize i8 i16 i32 i64 isize }
impl Exact for f32 {
    fn same(&self, o: &Self) -> bool {
        self.to_bits() == o.to_bits()
    }
}
impl Exact for f64 {
    fn same(&self, o: &Self) -> bool {
        self.is_finite() && o.is_finite() && self.is_sign_negative() == o.is_sign_negative() && ulps(*self, *o) <= ULP
    }
}
impl<T: Exact> Exact for Box<T> {
    fn same(&self, o: &Self) -> bool {
        (**self).same(o)
    }
}
impl<T: Exact> Exact for Option<T> {
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Some(a), Some(b)) => a.same(b),
            (None, None) => true,
            _ => false,
        }
    }
}
impl<A: Exact, B: Exact> Exact for (A, B) {
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
impl<T: Exact> Exact for Vec<T> {
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().zip(o).all(|(a, b)| a.same(b))
    }
}
impl<T: Exact, const N: usize> Exact for [T; N] {
    fn same(&self, o: &Self) -> bool {
        self.iter().zip(o).all(|(a, b)| a.same(b))
    }
}
impl<K: Ord, V: Exact> Exact for BTreeMap<K, V> {
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().zip(o).all(|((k, a), (l, b))| k == l && a.same(b))
    }
}
#[cfg(feature = "std")]
impl<K: Hash + Eq, V: Exact, H: BuildHasher> Exact for HashMap<K, V, H> {
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().all(|(k, a)| o.get(k).map_or(false, |b| a.same(b)))
    }
}
impl Exact for Number {
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Number::F64(a), Number::F64(b)) => a.same(b),
            (a, b) => crate::int_of(a).is_some() && crate::int_of(a) == crate::int_of(b),
        }
    }
}
impl Exact for Value {
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Value::Null, Value::Null) => true,
            (Value::Bool(a), Value::Bool(b)) => a == b,
            (Value::Number(a), Value::Number(b)) => a.same(b),
            (Value::String(a), Value::String(b)) => a == b,
            (Value::Array(a), Value::Array(b)) => a.same(b),
            (Value::Object(a), Value::Object(b)) => a.same(b),
            _ => false,
        }
    }
}
impl Exact for Array {
    fn same(&self, o: &Self) -> bool {
        (**self).same(&**o)
    }
}
impl Exact for Object {
    fn same(&self, o: &Self) -> bool {
        (**self).same(&**o)
    }
}
