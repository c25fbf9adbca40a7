//! C19: Array, Object and Value behave as the standard collections they wrap.

use mc_core::alloc::{mark, Checked};
use mc_core::gen::{lengths, trees, words};
use mc_core::run::{self, Ctx, Spec};
use mc_core::rv::RV;
use miniserde::json::{from_str, to_string, Array, Number, Object, Value};
use std::collections::BTreeMap;
use std::fmt::{self, Debug};

#[global_allocator]
static A: Checked = Checked;

type R = Result<(), String>;

// ---- values and their model

/// The model of a value with its Debug form written independently over std's collections.
#[derive(Clone, PartialEq)]
enum M {
    Null,
    Bool(bool),
    Num(&'static str),
    Str(String),
    Arr(Vec<M>),
    Obj(BTreeMap<String, M>),
}
struct Head<'a>(&'static str, &'a dyn Fn(&mut fmt::Formatter) -> fmt::Result);
impl Debug for Head<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(self.0)?;
        (self.1)(f)
    }
}
impl Debug for M {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            M::Null => f.write_str("Null"),
            M::Bool(b) => f.write_str(if *b { "Bool(true)" } else { "Bool(false)" }),
            M::Num(n) => f.write_str(&format!("Number({})", n)),
            M::Str(s) => f.write_str(&format!("String({:?})", s)),
            M::Arr(v) => debug_array(v, f),
            M::Obj(o) => debug_object(o, f),
        }
    }
}
fn debug_array(v: &Vec<M>, f: &mut fmt::Formatter) -> fmt::Result {
    Head("Array ", &|f| v.fmt(f)).fmt(f)
}
fn debug_object(v: &BTreeMap<String, M>, f: &mut fmt::Formatter) -> fmt::Result {
    Head("Object ", &|f| v.fmt(f)).fmt(f)
}
impl M {
    fn rv(&self) -> RV {
        match self {
            M::Null => RV::Null,
            M::Bool(b) => RV::Bool(*b),
            M::Num(n) => RV::Num(n.to_string()),
            M::Str(s) => RV::Str(s.clone()),
            M::Arr(v) => RV::Arr(v.iter().map(|x| x.rv()).collect()),
            M::Obj(o) => RV::Obj(o.iter().map(|(k, x)| (k.clone(), x.rv())).collect()),
        }
    }
    fn text(&self) -> String {
        self.rv().text()
    }
    fn real(&self) -> Value {
        match self {
            M::Null => Value::Null,
            M::Bool(b) => Value::Bool(*b),
            M::Num(n) => Value::Number(match n.parse::<u64>() {
                Ok(x) => Number::U64(x),
                Err(_) => match n.parse::<i64>() {
                    Ok(x) => Number::I64(x),
                    Err(_) => Number::F64(n.parse().unwrap()),
                },
            }),
            M::Str(s) => Value::String(s.clone()),
            M::Arr(v) => Value::Array(v.iter().map(|x| x.real()).collect()),
            M::Obj(o) => Value::Object(o.iter().map(|(k, x)| (k.clone(), x.real())).collect()),
        }
    }
}
fn same(v: &Value, m: &M) -> bool {
    match (v, m) {
        (Value::Null, M::Null) => true,
        (Value::Bool(a), M::Bool(b)) => a == b,
        (Value::Number(a), M::Num(b)) => match (a, M::Num(b).real()) {
            (Number::U64(a), Value::Number(Number::U64(b))) => *a == b,
            (Number::I64(a), Value::Number(Number::I64(b))) => *a == b,
            (Number::F64(a), Value::Number(Number::F64(b))) => a.to_bits() == b.to_bits(),
            _ => false,
        },
        (Value::String(a), M::Str(b)) => a == b,
        (Value::Array(a), M::Arr(b)) => same_arr(a, b),
        (Value::Object(a), M::Obj(b)) => same_obj(a, b),
        _ => false,
    }
}
fn same_slice(a: &[Value], b: &[M]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y))
}
fn same_arr(a: &Array, b: &Vec<M>) -> bool {
    same_slice(a, b)
}
fn same_obj(a: &Object, b: &BTreeMap<String, M>) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|((k, x), (l, y))| k == l && same(x, y))
}
fn same_opt(a: &Option<Value>, b: &Option<M>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => same(a, b),
        _ => false,
    }
}
fn pair(a: &Option<(String, Value)>, b: &Option<(String, M)>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some((k, a)), Some((l, b))) => k == l && same(a, b),
        _ => false,
    }
}
fn need(ok: bool, what: &str) -> R {
    if ok {
        Ok(())
    } else {
        Err(format!("{} differs", what))
    }
}

fn elem(i: usize) -> M {
    match i {
        0 => M::Num("1"),
        1 => M::Str("s".into()),
        2 => M::Arr(vec![M::Null]),
        3 => M::Obj(BTreeMap::from([("k".to_string(), M::Arr(vec![]))])),
        4 => M::Bool(true),
        _ => M::Num("-2.5"),
    }
}
const ELEMS: usize = 4;
/// Changes something below an element.
fn touch(v: &mut Value) {
    match v {
        Value::Array(a) => a.push(Value::Bool(false)),
        Value::Object(o) => {
            o.insert("t".into(), Value::Null);
        }
        Value::String(s) => s.push('!'),
        other => *other = Value::String("n".into()),
    }
}
fn touch_m(m: &mut M) {
    match m {
        M::Arr(a) => a.push(M::Bool(false)),
        M::Obj(o) => {
            o.insert("t".into(), M::Null);
        }
        M::Str(s) => s.push('!'),
        other => *other = M::Str("n".into()),
    }
}
fn container(v: &Value) -> bool {
    matches!(v, Value::Array(_) | Value::Object(_))
}
fn container_m(v: &M) -> bool {
    matches!(v, M::Arr(_) | M::Obj(_))
}

// ---- arrays

/// Two registers, so that clones, moves and splits stay observable.
#[derive(Default)]
struct Arrs {
    a: Array,
    b: Array,
}
#[derive(Default, Clone, PartialEq)]
struct ArrsM {
    a: Vec<M>,
    b: Vec<M>,
}
type Op<S, T> = (String, Box<dyn Fn(&mut S, &mut T) -> R>);

fn array_ops(wide: bool) -> Vec<Op<Arrs, ArrsM>> {
    let mut v: Vec<Op<Arrs, ArrsM>> = Vec::new();
    macro_rules! op {
        ($name:expr, |$s:ident, $m:ident| $e:expr) => {
            v.push(($name.to_string(), Box::new(move |$s: &mut Arrs, $m: &mut ArrsM| -> R { $e; #[allow(unreachable_code)] Ok(()) })))
        };
    }
    for i in 0..if wide { ELEMS } else { 3 } {
        op!(format!("push {}", i), |s, m| {
            s.a.push(elem(i).real());
            m.a.push(elem(i))
        });
    }
    op!("pop", |s, m| need(same_opt(&s.a.pop(), &m.a.pop()), "pop")?);
    op!("touch first", |s, m| {
        need(s.a.first().is_some() == !m.a.is_empty(), "first")?;
        if let Some(x) = s.a.first_mut() {
            touch(x);
            touch_m(&mut m.a[0])
        }
    });
    op!("touch last by index", |s, m| if let Some(i) = s.a.len().checked_sub(1) {
        touch(&mut s.a[i]);
        touch_m(m.a.last_mut().unwrap())
    });
    op!("touch all in b", |s, m| {
        for x in &mut s.b {
            touch(x)
        }
        for x in &mut m.b {
            touch_m(x)
        }
    });
    for i in 0..2 {
        op!(format!("insert at {}", i), |s, m| if i <= m.a.len() {
            s.a.insert(i, elem(3).real());
            m.a.insert(i, elem(3))
        });
        op!(format!("remove {}", i), |s, m| if i < m.a.len() {
            need(same(&s.a.remove(i), &m.a.remove(i)), "remove")?
        });
        op!(format!("truncate {}", i), |s, m| {
            s.a.truncate(i);
            m.a.truncate(i)
        });
        op!(format!("split_off {}", i), |s, m| if i <= m.a.len() {
            let x = s.a.split_off(i);
            s.b = x.into_iter().collect();
            m.b = m.a.split_off(i)
        });
    }
    op!("swap_remove", |s, m| if !m.a.is_empty() { need(same(&s.a.swap_remove(0), &m.a.swap_remove(0)), "swap_remove")? });
    op!("clear", |s, m| {
        s.a.clear();
        m.a.clear()
    });
    op!("resize 3", |s, m| {
        s.a.resize(3, elem(2).real());
        m.a.resize(3, elem(2))
    });
    op!("retain containers", |s, m| {
        s.a.retain(container);
        m.a.retain(container_m)
    });
    op!("drain middle", |s, m| if m.a.len() > 1 {
        let x: Vec<Value> = s.a.drain(1..).collect();
        let y: Vec<M> = m.a.drain(1..).collect();
        need(same_slice(&x, &y), "drain")?
    });
    op!("drain part", |s, m| {
        let n = m.a.len();
        let x = s.a.drain(..n / 2).next_back();
        let y = m.a.drain(..n / 2).next_back();
        need(same_opt(&x, &y), "drain")?
    });
    op!("reverse", |s, m| {
        s.a.reverse();
        m.a.reverse()
    });
    op!("rotate", |s, m| if !m.a.is_empty() {
        s.a.rotate_left(1);
        m.a.rotate_left(1)
    });
    op!("into_iter, one forward", |s, m| {
        let mut i = std::mem::take(&mut s.a).into_iter();
        let mut j = std::mem::take(&mut m.a).into_iter();
        need(i.len() == j.len(), "len of into_iter")?;
        need(same_opt(&i.next(), &j.next()), "next")?;
        s.a = i.collect();
        m.a = j.collect()
    });
    op!("into_iter, one back, rest dropped", |s, m| {
        let mut i = std::mem::take(&mut s.a).into_iter();
        let mut j = std::mem::take(&mut m.a).into_iter();
        need(i.size_hint() == j.size_hint(), "size_hint")?;
        need(same_opt(&i.next_back(), &j.next_back()), "next_back")?;
        need(same_slice(i.as_slice(), j.as_slice()), "as_slice")?
    });
    op!("into_iter both ends into b", |s, m| {
        let mut i = std::mem::take(&mut s.a).into_iter();
        let mut j = std::mem::take(&mut m.a).into_iter();
        let (x, y) = (i.next_back(), j.next_back());
        let (x2, y2) = (i.next(), j.next());
        s.b.extend(i.rev().chain(x).chain(x2));
        m.b.extend(j.rev().chain(y).chain(y2))
    });
    op!("iterate by reference", |s, m| {
        let mut n = 0;
        for (x, y) in (&s.a).into_iter().zip(&m.a) {
            need(same(x, y), "&Array")?;
            n += 1
        }
        need(n == m.a.len() && s.a.iter().rev().count() == n && (&s.a).into_iter().len() == n, "count")?;
        for (x, y) in s.a.iter().rev().zip(m.a.iter().rev()) {
            need(same(x, y), "reversed")?
        }
    });
    op!("iterate by mutable reference", |s, m| {
        for (i, x) in (&mut s.a).into_iter().enumerate() {
            if i % 2 == 0 {
                touch(x)
            }
        }
        for x in m.a.iter_mut().step_by(2) {
            touch_m(x)
        }
    });
    op!("collect from iterator", |s, m| {
        s.a = Array::from_iter((0..2).map(|i| elem(i + 2).real()));
        m.a = (0..2).map(|i| elem(i + 2)).collect()
    });
    op!("new and default", |s, m| {
        need(Array::new().is_empty() && Array::default().is_empty(), "new")?;
        s.b = Array::default();
        m.b = Vec::default()
    });
    op!("b = a.clone()", |s, m| {
        s.b = s.a.clone();
        m.b = m.a.clone()
    });
    op!("b.clone_from(a)", |s, m| {
        s.b.clone_from(&s.a);
        m.b = m.a.clone()
    });
    op!("a.clone_from(b)", |s, m| {
        s.a.clone_from(&s.b);
        m.a = m.b.clone()
    });
    op!("swap registers", |s, m| {
        std::mem::swap(&mut s.a, &mut s.b);
        std::mem::swap(&mut m.a, &mut m.b)
    });
    op!("b = take(a)", |s, m| {
        s.b = std::mem::take(&mut s.a);
        m.b = std::mem::take(&mut m.a)
    });
    op!("append b", |s, m| {
        s.a.append(&mut s.b);
        m.a.append(&mut m.b)
    });
    op!("extend from b by value", |s, m| {
        s.a.extend(std::mem::take(&mut s.b));
        m.a.extend(std::mem::take(&mut m.b))
    });
    op!("extend from b cloned", |s, m| {
        s.a.extend(s.b.iter().cloned());
        m.a.extend(m.b.iter().cloned())
    });
    op!("contents moved out and back", |s, m| {
        let v: Vec<Value> = std::mem::take(&mut *s.a);
        need(s.a.is_empty() && same_slice(&v, &m.a), "contents")?;
        *s.a = v
    });
    op!("contents replaced by b's", |s, m| {
        *s.a = std::mem::take(&mut *s.b);
        m.a = std::mem::take(&mut m.b)
    });
    op!("b pushed as an element", |s, m| {
        s.a.push(Value::Array(std::mem::take(&mut s.b)));
        m.a.push(M::Arr(std::mem::take(&mut m.b)))
    });
    op!("last element moved to b", |s, m| {
        if let Some(M::Arr(x)) = m.a.last().cloned() {
            m.a.pop();
            m.b = x;
            match s.a.pop() {
                Some(Value::Array(x)) => s.b = x,
                _ => need(false, "popped element")?,
            }
        }
    });
    op!("through text", |s, m| {
        s.b = from_str(&to_string(&s.a)).map_err(|_| "text refused".to_string())?;
        m.b = m.a.clone()
    });
    op!("slices", |s, m| {
        need(same_slice(s.a.as_slice(), &m.a) && s.a.is_empty() == m.a.is_empty() && s.a.len() == m.a.len(), "as_slice")?;
        need(s.a.get(1).is_some() == m.a.get(1).is_some() && s.a.split_first().is_some() == !m.a.is_empty(), "get")?;
        need(s.a.iter().position(container) == m.a.iter().position(container_m), "position")?
    });
    if wide {
        op!("sort", |s, m| {
            s.a.sort_by_key(|v| container(v));
            m.a.sort_by_key(|v| container_m(v))
        });
        op!("dedup", |s, m| {
            s.a.dedup_by_key(|v| container(v));
            m.a.dedup_by_key(|v| container_m(v))
        });
        op!("splice", |s, m| if !m.a.is_empty() {
            let x: Vec<Value> = s.a.splice(0..1, [elem(1).real(), elem(4).real()]).collect();
            let y: Vec<M> = m.a.splice(0..1, [elem(1), elem(4)]).collect();
            need(same_slice(&x, &y), "splice")?
        });
        op!("reserve and shrink", |s, _m| {
            s.a.reserve(100);
            s.a.shrink_to_fit()
        });
        op!("extend_from_within", |s, m| {
            s.a.extend_from_within(..);
            m.a.extend_from_within(..)
        });
        op!("chunks swapped", |s, m| if m.a.len() > 1 {
            let n = m.a.len();
            s.a.swap(0, n - 1);
            m.a.swap(0, n - 1)
        });
    }
    v
}

// ---- objects

#[derive(Default)]
struct Objs {
    a: Object,
    b: Object,
}
type Mo = BTreeMap<String, M>;
#[derive(Default, Clone, PartialEq)]
struct ObjsM {
    a: Mo,
    b: Mo,
}
const KEYS: [&str; 3] = ["b", "a", "\u{e9}"];

fn object_ops(wide: bool) -> Vec<Op<Objs, ObjsM>> {
    let mut v: Vec<Op<Objs, ObjsM>> = Vec::new();
    macro_rules! op {
        ($name:expr, |$s:ident, $m:ident| $e:expr) => {
            v.push(($name.to_string(), Box::new(move |$s: &mut Objs, $m: &mut ObjsM| -> R { $e; #[allow(unreachable_code)] Ok(()) })))
        };
    }
    for (i, k) in KEYS.into_iter().enumerate() {
        op!(format!("insert {:?}", k), |s, m| need(same_opt(&s.a.insert(k.into(), elem(i + 1).real()), &m.a.insert(k.into(), elem(i + 1))), "insert")?);
        op!(format!("remove {:?}", k), |s, m| need(same_opt(&s.a.remove(k), &m.a.remove(k)), "remove")?);
        op!(format!("lookup {:?}", k), |s, m| {
            need(s.a.contains_key(k) == m.a.contains_key(k), "contains_key")?;
            match (s.a.get(k), m.a.get(k)) {
                (Some(x), Some(y)) => need(same(x, y) && same(&s.a[k], y), "get")?,
                (None, None) => {}
                _ => need(false, "get")?,
            }
        });
        op!(format!("touch {:?}", k), |s, m| {
            need(s.a.get_mut(k).is_some() == m.a.get_mut(k).is_some(), "get_mut")?;
            if let (Some(x), Some(y)) = (s.a.get_mut(k), m.a.get_mut(k)) {
                touch(x);
                touch_m(y)
            }
        });
        op!(format!("entry {:?}", k), |s, m| {
            touch(s.a.entry(k.into()).or_insert(Value::Null));
            touch_m(m.a.entry(k.into()).or_insert(M::Null))
        });
        op!(format!("entry {:?} modified", k), |s, m| {
            s.a.entry(k.into()).and_modify(touch).or_insert_with(|| elem(3).real());
            m.a.entry(k.into()).and_modify(touch_m).or_insert_with(|| elem(3));
        });
        op!(format!("split_off {:?}", k), |s, m| {
            s.b = s.a.split_off(k).into_iter().collect();
            m.b = m.a.split_off(k)
        });
        op!(format!("range {:?}", k), |s, m| {
            let x: Vec<_> = s.a.range(k.to_string()..).map(|(k, v)| (k.clone(), v.clone())).collect();
            let y: Vec<_> = m.a.range(k.to_string()..).map(|(k, v)| (k.clone(), v.clone())).collect();
            need(x.len() == y.len() && x.into_iter().zip(y).all(|(a, b)| pair(&Some(a), &Some(b))), "range")?
        });
    }
    op!("insert into b", |s, m| need(same_opt(&s.b.insert("a".into(), elem(0).real()), &m.b.insert("a".into(), elem(0))), "insert")?);
    op!("pop_first", |s, m| need(pair(&s.a.pop_first(), &m.a.pop_first()), "pop_first")?);
    op!("pop_last", |s, m| need(pair(&s.a.pop_last(), &m.a.pop_last()), "pop_last")?);
    op!("first and last", |s, m| {
        need(s.a.first_key_value().map(|e| e.0) == m.a.first_key_value().map(|e| e.0), "first")?;
        need(s.a.last_key_value().map(|e| e.0) == m.a.last_key_value().map(|e| e.0), "last")?;
        need(s.a.len() == m.a.len() && s.a.is_empty() == m.a.is_empty(), "len")?
    });
    op!("clear", |s, m| {
        s.a.clear();
        m.a.clear()
    });
    op!("retain containers", |s, m| {
        s.a.retain(|_, v| container(v));
        m.a.retain(|_, v| container_m(v))
    });
    op!("into_iter, one forward", |s, m| {
        let mut i = std::mem::take(&mut s.a).into_iter();
        let mut j = std::mem::take(&mut m.a).into_iter();
        need(i.len() == j.len(), "len of into_iter")?;
        need(pair(&i.next(), &j.next()), "next")?;
        s.a = i.collect();
        m.a = j.collect()
    });
    op!("into_iter, one back, rest dropped", |s, m| {
        let mut i = std::mem::take(&mut s.a).into_iter();
        let mut j = std::mem::take(&mut m.a).into_iter();
        need(i.size_hint() == j.size_hint(), "size_hint")?;
        need(pair(&i.next_back(), &j.next_back()), "next_back")?
    });
    op!("into_iter both ends into b", |s, m| {
        let mut i = std::mem::take(&mut s.a).into_iter();
        let mut j = std::mem::take(&mut m.a).into_iter();
        let (x, y) = (i.next_back(), j.next_back());
        s.b.extend(i.rev().chain(x));
        m.b.extend(j.rev().chain(y))
    });
    op!("iterate by reference", |s, m| {
        let n = (&s.a).into_iter().zip(&m.a).filter(|((k, x), (l, y))| k == l && same(x, y)).count();
        need(n == m.a.len() && (&s.a).into_iter().len() == n, "&Object")?;
        need(s.a.keys().eq(m.a.keys()) && s.a.iter().rev().map(|e| e.0).eq(m.a.keys().rev()), "keys")?;
        need(s.a.values().zip(m.a.values()).all(|(x, y)| same(x, y)), "values")?
    });
    op!("iterate by mutable reference", |s, m| {
        for (k, x) in &mut s.a {
            if k != "a" {
                touch(x)
            }
        }
        for (k, x) in &mut m.a {
            if k != "a" {
                touch_m(x)
            }
        }
    });
    op!("touch all in b", |s, m| {
        s.b.values_mut().for_each(touch);
        m.b.values_mut().for_each(touch_m)
    });
    op!("collect with a duplicate", |s, m| {
        let es = || [("a", 0), ("c", 1), ("a", 2)].into_iter();
        s.a = es().map(|(k, i)| (k.to_string(), elem(i).real())).collect();
        m.a = es().map(|(k, i)| (k.to_string(), elem(i))).collect()
    });
    op!("new and default", |s, m| {
        need(Object::new().is_empty() && Object::default().is_empty(), "new")?;
        s.b = Object::default();
        m.b = Mo::default()
    });
    op!("b = a.clone()", |s, m| {
        s.b = s.a.clone();
        m.b = m.a.clone()
    });
    op!("b.clone_from(a)", |s, m| {
        s.b.clone_from(&s.a);
        m.b = m.a.clone()
    });
    op!("a.clone_from(b)", |s, m| {
        s.a.clone_from(&s.b);
        m.a = m.b.clone()
    });
    op!("swap registers", |s, m| {
        std::mem::swap(&mut s.a, &mut s.b);
        std::mem::swap(&mut m.a, &mut m.b)
    });
    op!("b = take(a)", |s, m| {
        s.b = std::mem::take(&mut s.a);
        m.b = std::mem::take(&mut m.a)
    });
    op!("append b", |s, m| {
        s.a.append(&mut s.b);
        m.a.append(&mut m.b)
    });
    op!("extend from b by value", |s, m| {
        s.a.extend(std::mem::take(&mut s.b));
        m.a.extend(std::mem::take(&mut m.b))
    });
    op!("contents moved out and back", |s, m| {
        let v = std::mem::take(&mut *s.a);
        need(s.a.is_empty() && v.keys().eq(m.a.keys()), "contents")?;
        *s.a = v
    });
    op!("contents replaced by b's", |s, m| {
        *s.a = std::mem::take(&mut *s.b);
        m.a = std::mem::take(&mut m.b)
    });
    op!("b inserted as an element", |s, m| {
        s.a.insert("o".into(), Value::Object(std::mem::take(&mut s.b)));
        m.a.insert("o".into(), M::Obj(std::mem::take(&mut m.b)));
    });
    op!("element o moved to b", |s, m| if let Some(M::Obj(x)) = m.a.get("o").cloned() {
        m.a.remove("o");
        m.b = x;
        match s.a.remove("o") {
            Some(Value::Object(x)) => s.b = x,
            _ => need(false, "removed element")?,
        }
    });
    op!("through text", |s, m| {
        s.b = from_str(&to_string(&s.a)).map_err(|_| "text refused".to_string())?;
        m.b = m.a.clone()
    });
    if wide {
        op!("into_keys", |s, m| {
            let x: Vec<String> = std::mem::take(&mut *s.a).into_keys().collect();
            let y: Vec<String> = std::mem::take(&mut m.a).into_keys().collect();
            need(x == y, "into_keys")?
        });
        op!("remove_entry", |s, m| need(pair(&s.a.remove_entry("a"), &m.a.remove_entry("a")), "remove_entry")?);
        op!("first_entry", |s, m| {
            if let Some(mut e) = s.a.first_entry() {
                touch(e.get_mut())
            }
            if let Some(mut e) = m.a.first_entry() {
                touch_m(e.get_mut())
            }
        });
        op!("many entries", |s, m| for i in 0..14 {
            s.a.insert(format!("m{}", i), Value::Null);
            m.a.insert(format!("m{}", i), M::Null);
        });
    }
    v
}

// ---- exploring histories

trait Sys {
    type Model: Default + Clone;
    fn check(&self, m: &Self::Model) -> R;
}
fn views<T: miniserde::Serialize + Debug + ?Sized>(x: &T, m: &M) -> R {
    if to_string(x) != m.text() {
        return Err(format!("serialized as {} instead of {}", to_string(x), m.text()));
    }
    for (got, want) in [(format!("{:?}", x), format!("{:?}", m)), (format!("{:#?}", x), format!("{:#?}", m))] {
        if got != want {
            return Err(format!("Debug shows {} instead of {}", got, want));
        }
    }
    Ok(())
}
impl Sys for Arrs {
    type Model = ArrsM;
    fn check(&self, m: &ArrsM) -> R {
        need(same_arr(&self.a, &m.a), "content")?;
        need(same_arr(&self.b, &m.b), "content of the second container")?;
        views(&self.a, &M::Arr(m.a.clone()))?;
        views(&self.b, &M::Arr(m.b.clone()))
    }
}
impl Sys for Objs {
    type Model = ObjsM;
    fn check(&self, m: &ObjsM) -> R {
        need(same_obj(&self.a, &m.a), "content")?;
        need(same_obj(&self.b, &m.b), "content of the second container")?;
        views(&self.a, &M::Obj(m.a.clone()))?;
        views(&self.b, &M::Obj(m.b.clone()))
    }
}

fn history<S: Sys + Default>(ctx: &mut Ctx, fam: &'static str, ops: &[Op<S, S::Model>], start: &[usize], h: &[usize]) {
    let mut label = String::new();
    for &i in h {
        label.push_str(&ops[i].0);
        label.push_str("; ");
    }
    if !start.is_empty() {
        label.push_str(&format!("from {:?}", start));
    }
    if !ctx.go(fam, label.as_bytes()) {
        return;
    }
    let before = mark();
    let r = (|| {
        let mut s = S::default();
        let mut m = S::Model::default();
        for &i in start.iter().chain(h) {
            (ops[i].1)(&mut s, &mut m)?;
        }
        s.check(&m)
    })();
    if let Err(e) = r {
        ctx.fail(e);
        return;
    }
    drop(r);
    let after = mark();
    ctx.check(before == after, || format!("{} blocks, {} bytes leaked", after.blocks - before.blocks, after.bytes - before.bytes));
    ctx.add("operations", h.len() as u64);
    if h.len() > 1 {
        ctx.nontrivial();
    }
}

fn find<S: Sys>(ops: &[Op<S, S::Model>], names: &[&str]) -> Vec<usize> {
    names.iter().map(|n| ops.iter().position(|o| o.0 == *n).unwrap_or_else(|| panic!("no operation {}", n))).collect()
}

fn explore<S: Sys + Default>(ctx: &mut Ctx, fam: &'static str, ops: &[Op<S, S::Model>], starts: &[Vec<usize>], len: usize) {
    for l in 0..=len {
        words(l, ops.len(), &mut |h| {
            if ctx.mine() {
                for s in starts {
                    history(ctx, fam, ops, s, h);
                }
            }
        });
    }
}

fn body(ctx: &mut Ctx) {
    let ops = array_ops(false);
    let all = array_ops(true);
    ctx.set_max("array operations", all.len() as u64);
    let starts = |ops: &[Op<Arrs, ArrsM>]| {
        vec![
            vec![],
            find(ops, &["push 0", "push 2"]),
            find(ops, &["push 2", "insert at 0", "push 1", "b = a.clone()"]),
            find(ops, &["push 1", "push 2", "b = take(a)", "push 2", "push 0", "push 2", "push 1"]),
        ]
    };
    explore(ctx, "array histories", &all, &starts(&all), ctx.pick(2, 3));
    explore(ctx, "array histories", &ops, &starts(&ops)[..ctx.pick(2, 4)], 3);
    if !ctx.quick() {
        explore(ctx, "array histories", &ops, &starts(&ops)[1..], 4);
    }
    let ops = object_ops(false);
    let all = object_ops(true);
    ctx.set_max("object operations", all.len() as u64);
    let starts = |ops: &[Op<Objs, ObjsM>]| {
        vec![
            vec![],
            find(ops, &["insert \"b\"", "insert \"a\""]),
            find(ops, &["insert \"a\"", "insert \"\u{e9}\"", "b = a.clone()", "insert \"b\""]),
            find(ops, &["collect with a duplicate", "b = take(a)", "insert \"b\"", "insert into b"]),
        ]
    };
    explore(ctx, "object histories", &all, &starts(&all), ctx.pick(2, 3));
    explore(ctx, "object histories", &ops, &starts(&ops)[..ctx.pick(2, 4)], 3);
    if !ctx.quick() {
        explore(ctx, "object histories", &ops, &starts(&ops)[1..], 4);
    }
    // Values: clone, clone_from over every pair, default, views.
    let sc = [RV::Null, RV::Bool(true), RV::Num("7".into()), RV::Str("s\u{1}".into())];
    let ts: Vec<M> = trees(ctx.pick(4, 5), &sc, &["k", "a"]).iter().map(model).collect();
    let nums = ["0", "1", "18446744073709551615", "-1", "-9223372036854775808", "1.5", "-0.0", "1e300", "0.1"];
    let ts: Vec<M> = ts.into_iter().chain(nums.map(M::Num)).chain([M::Str("\"\\\u{10ffff}\u{7f}'".into()), M::Bool(false)]).collect();
    let few: Vec<&M> = ts.iter().filter(|m| m.text().len() <= 9).collect();
    for m in &ts {
        if !ctx.mine() {
            continue;
        }
        if ctx.go("values", m.text().as_bytes()) {
            let before = mark();
            let r = value_case(m);
            if let Err(e) = r {
                ctx.fail(e);
            }
            let after = mark();
            ctx.check(before == after, || "a block is leaked".into());
            ctx.nontrivial();
        }
        for n in if m.text().len() <= ctx.pick(usize::MAX, 13) { &few[..] } else { &few[..200] } {
            if ctx.go("clone_from", format!("{} over {}", m.text(), n.text()).as_bytes()) {
                let before = mark();
                let r = clone_from_case(m, n);
                if let Err(e) = r {
                    ctx.fail(e);
                }
                let after = mark();
                ctx.check(before == after, || "a block is leaked".into());
                ctx.nontrivial();
            }
        }
    }
    for n in lengths(ctx.pick(70, 300), ctx.pick(1 << 12, 1 << 16)) {
        if ctx.mine() {
            for k in 0..3 {
                if ctx.go("sizes", format!("{} {}", n, k).as_bytes()) {
                    let before = mark();
                    let r = size_case(n, k);
                    if let Err(e) = r {
                        ctx.fail(e);
                    }
                    let after = mark();
                    ctx.check(before == after, || "a block is leaked".into());
                    ctx.nontrivial();
                }
            }
        }
    }
}

fn model(t: &RV) -> M {
    match t {
        RV::Null => M::Null,
        RV::Bool(b) => M::Bool(*b),
        RV::Num(_) => M::Num("7"),
        RV::Str(s) => M::Str(s.clone()),
        RV::Arr(v) => M::Arr(v.iter().map(model).collect()),
        RV::Obj(o) => M::Obj(o.iter().map(|e| (e.0.clone(), model(&e.1))).collect()),
    }
}

fn plain(m: &M) -> R {
    // Doubles and escapes are read back rather than compared as text.
    let v = m.real();
    need(same(&v, m), "value")
}
fn value_case(m: &M) -> R {
    plain(m)?;
    let v = m.real();
    let mut c = v.clone();
    need(same(&c, m), "clone")?;
    touch(&mut c);
    need(same(&v, m), "original after its clone changed")?;
    let mut tm = m.clone();
    touch_m(&mut tm);
    need(same(&c, &tm), "changed clone")?;
    let mut v = v;
    let c = v.clone();
    touch(&mut v);
    need(same(&c, m), "clone after its original changed")?;
    drop(v);
    need(same(&c, m), "clone after its original is gone")?;
    // Numbers and escapes have their own spelling; the views of everything else are dictated.
    if !matches!(m, M::Num("-0.0" | "1e300") | M::Str(_)) && !m.text().contains("\\u") {
        views(&c, m)?;
    } else {
        need(format!("{:?}", c) == format!("{:?}", m), "Debug")?;
    }
    need(same(&from_str::<Value>(&to_string(&c)).map_err(|_| "text refused")?, m), "text")?;
    let mut c = c;
    let t = std::mem::take(&mut c);
    need(same(&t, m) && same(&c, &M::Null) && same(&Value::default(), &M::Null), "take")?;
    let boxed: Box<Value> = Box::new(t);
    need(same(&boxed.clone(), m), "boxed clone")
}
fn clone_from_case(m: &M, n: &M) -> R {
    let src = m.real();
    let mut dst = n.real();
    dst.clone_from(&src);
    need(same(&dst, m) && same(&src, m), "clone_from")?;
    touch(&mut dst);
    need(same(&src, m), "source of clone_from")?;
    // Elementwise, inside containers.
    let mut a: Array = [n.real(), m.real(), n.real()].into_iter().collect();
    let s: Array = [m.real(), n.real()].into_iter().collect();
    a.clone_from(&s);
    need(same_slice(&a, &[m.clone(), n.clone()]), "Array::clone_from")?;
    let mut b = Array::new();
    b.push(n.real());
    b.clone_from(&a);
    need(same_slice(&b, &[m.clone(), n.clone()]), "Array::clone_from a longer one")?;
    let mut o = Object::from_iter([("x".to_string(), n.real()), ("y".to_string(), n.real())]);
    let p = Object::from_iter([("y".to_string(), m.real()), ("z".to_string(), n.real())]);
    o.clone_from(&p);
    drop(p);
    need(same_obj(&o, &BTreeMap::from([("y".to_string(), m.clone()), ("z".to_string(), n.clone())])), "Object::clone_from")
}
fn size_case(n: usize, k: usize) -> R {
    let m: Vec<M> = (0..n).map(|i| elem(i % 6)).collect();
    let a: Array = m.iter().map(|x| x.real()).collect();
    need(same_arr(&a, &m) && a.len() == n, "collected array")?;
    let cut = [0, n / 2, n][k];
    let mut i = a.clone().into_iter();
    let head: Vec<Value> = i.by_ref().take(cut).collect();
    need(same_slice(&head, &m[..cut]) && same_slice(i.as_slice(), &m[cut..]), "partly consumed")?;
    if k == 1 {
        drop(head);
        let rest: Array = i.rev().collect();
        need(rest.iter().rev().zip(&m[cut..]).all(|(x, y)| same(x, y)) && rest.len() == n - cut, "rest")?;
    } else {
        drop(i);
    }
    let mut c = Array::new();
    for _ in 0..cut {
        c.push(Value::String("old".into()));
    }
    c.clone_from(&a);
    need(same_arr(&c, &m), "clone_from")?;
    views(&a, &M::Arr(m.clone()))?;
    let all = a.iter().count() == n && a.first().is_some() == (n > 0) && a.get(n).is_none() && (&a).into_iter().rev().zip(m.iter().rev()).all(|(x, y)| same(x, y));
    need(all, "iteration")?;
    let mut t = a.clone();
    for x in &mut t {
        touch(x);
    }
    let tm: Vec<M> = m.iter().cloned().map(|mut x| { touch_m(&mut x); x }).collect();
    need(same_arr(&t, &tm), "changed through iter_mut")?;
    t.truncate(cut);
    t.extend(a.iter().cloned());
    need(t.len() == cut + n && same_slice(&t[..cut], &tm[..cut]) && same_slice(&t[cut..], &m), "truncate and extend")?;
    need(same(&from_str::<Value>(&to_string(&a)).map_err(|_| "text refused")?, &M::Arr(m.clone())), "text read back")?;
    let mo: Mo = (0..n).map(|i| (format!("{}", (i * 7919) % 1_000_003), elem(i % 6))).collect();
    let o: Object = (0..n).map(|i| (format!("{}", (i * 7919) % 1_000_003), elem(i % 6).real())).collect();
    need(same_obj(&o, &mo), "collected object")?;
    let mut i = o.clone().into_iter();
    for (x, y) in i.by_ref().take(cut).zip(&mo) {
        need(x.0 == *y.0 && same(&x.1, y.1), "partly consumed object")?
    }
    drop(i);
    let mut c = Object::from_iter((0..cut).map(|i| (format!("{}", i), Value::Array(Array::new()))));
    c.clone_from(&o);
    need(same_obj(&c, &mo), "clone_from of an object")?;
    need(o.len() == n && o.iter().count() == n && o.keys().rev().zip(mo.keys().rev()).all(|(x, y)| x == y), "iteration over an object")?;
    let mut t = o.clone();
    for (_, x) in &mut t {
        touch(x);
    }
    need(t.iter().zip(&mo).all(|((k, x), (l, y))| {
        let mut y = y.clone();
        touch_m(&mut y);
        k == l && same(x, &y)
    }), "changed through iter_mut")?;
    for k in mo.keys().take(cut) {
        need(t.remove(k).is_some(), "remove")?;
    }
    need(t.len() == n - cut && t.keys().zip(mo.keys().skip(cut)).all(|(x, y)| x == y), "what is left")?;
    t.extend(o.iter().map(|(k, v)| (k.clone(), v.clone())));
    need(same_obj(&t, &mo), "extend")?;
    need(same(&from_str::<Value>(&to_string(&o)).map_err(|_| "text refused")?, &M::Obj(mo.clone())), "text of an object read back")?;
    views(&o, &M::Obj(mo))?;
    // Long texts inside, as a string and as a key, and one inside the other.
    let (x, e) = ("x".repeat(n), "\n".repeat(cut));
    let deep = (0..n.min(60)).fold(M::Null, |m, i| if i % 2 == 0 { M::Arr(vec![m]) } else { M::Obj(Mo::from([(format!("{}{}", i, &x[..n.min(i)]), m)])) });
    for m in [M::Arr(vec![M::Str(x.clone()), M::Null]), M::Obj(Mo::from([(x.clone(), M::Str(e.clone())), (e.clone() + "z", M::Str(x.clone()))])), deep] {
        let v = m.real();
        need(same(&v, &m) && same(&v.clone(), &m), "long texts")?;
        need(format!("{:?}", v) == format!("{:?}", m) && format!("{:#?}", v) == format!("{:#?}", m), "Debug of long texts")?;
        need(same(&from_str::<Value>(&to_string(&v)).map_err(|_| "text refused")?, &m), "long texts read back")?;
    }
    Ok(())
}

fn main() {
    run::main(
        Spec {
            property: "C19",
            level: "exploration",
            rule: "every history of container operations to a bound, from several start states with two registers, is executed on the real containers and on Vec / BTreeMap models; every returned value, the contents, the serialized and the Debug text (plain and pretty) are compared, and the checked allocator must balance.",
            assumptions: &["the Debug format is the one tests/test_value.rs fixes: std's list and map form behind 'Array ' and 'Object '"],
            stall: 60,
            mem_mb: 4096,
            bounds: "about 50 array and 60 object operations, all histories of 3 (4) operations from up to 4 start states; clone_from over all pairs of small trees; sizes to 2^12 (2^16)",
        },
        body,
    )
}
