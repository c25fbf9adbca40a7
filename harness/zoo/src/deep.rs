//! Nesting patterns: words of wrappers, repeated to a depth, as text and as values.

use miniserde::json::{Array, Number, Object, Value};

/// What precedes and follows the nested item at one level, already in the form to_string gives.
pub const WRAPS: [(&str, &str); 8] = [
    ("[", "]"),
    ("{\"k\":", "}"),
    ("[1,", "]"),
    ("[", ",\"s\"]"),
    ("{\"a\":[0],\"k\":", "}"),
    ("{\"k\":", ",\"z\":{\"q\":null}}"),
    ("[[],", ",{}]"),
    ("{\"\":[[3]],\"k\":", ",\"l\":\"s\"}"),
];

pub struct Text {
    pub opens: String,
    pub closes: String,
}

pub fn text(wraps: &[(&str, &str)], word: &[usize], depth: usize) -> Text {
    let mut opens = String::new();
    let mut closes = String::new();
    for i in 0..depth {
        opens.push_str(wraps[word[i % word.len()]].0);
    }
    for i in (0..depth).rev() {
        closes.push_str(wraps[word[i % word.len()]].1);
    }
    Text { opens, closes }
}

fn num(n: u64) -> Value {
    Value::Number(Number::U64(n))
}
fn arr(v: Vec<Value>) -> Value {
    Value::Array(v.into_iter().collect())
}
fn obj(v: Vec<(&str, Value)>) -> Value {
    Value::Object(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

pub fn wrap(w: usize, v: Value) -> Value {
    match w {
        0 => arr(vec![v]),
        1 => obj(vec![("k", v)]),
        2 => arr(vec![num(1), v]),
        3 => arr(vec![v, Value::String("s".into())]),
        4 => obj(vec![("a", arr(vec![num(0)])), ("k", v)]),
        5 => obj(vec![("k", v), ("z", obj(vec![("q", Value::Null)]))]),
        6 => arr(vec![Value::Array(Array::new()), v, Value::Object(Object::new())]),
        _ => obj(vec![("", arr(vec![arr(vec![num(3)])])), ("k", v), ("l", Value::String("s".into()))]),
    }
}

pub fn value(word: &[usize], depth: usize, core: Value) -> Value {
    let mut v = core;
    for i in (0..depth).rev() {
        v = wrap(word[i % word.len()], v);
    }
    v
}
