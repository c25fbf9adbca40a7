DE='src/json/de.rs'; SER='src/json/ser.rs'; IMPL='src/de/impls.rs'; DROP='src/json/drop.rs'
ARR='src/json/array.rs'; OBJ='src/json/object.rs'; VAL='src/json/value.rs'; ATTR='derive/src/attr.rs'; DDE='derive/src/de.rs'; DSER='derive/src/ser.rs'
BUGS=[]
def bug(**k): BUGS.append(k)
M='use miniserde::{json, Serialize, Deserialize};\nuse miniserde::json::{Value, Array, Object, Number};\n'

bug(id='c03-zeros-counted-short', property='C03',
 edits=[(DE,'''        mut exponent: i32,
    ) -> Result<f64> {
        loop {
            match self.peek_or_nul() {
                b'0'..=b'9' => {
                    self.bump();
                    // This could overflow... if your integer is gigabytes long.
                    exponent = exponent.saturating_add(1);
                }''','''        mut exponent: i32,
    ) -> Result<f64> {
        let mut dropped = 0_u16;
        loop {
            match self.peek_or_nul() {
                b'0'..=b'9' => {
                    self.bump();
                    // No double has that many digits.
                    if dropped < 10_000 {
                        dropped += 1;
                        exponent += 1;
                    }
                }''')],
 needs='an integer part of more than ten thousand digits with an exponent that brings it back into range',
 breaks='the digits past the ten thousandth are not counted, so the number is too small by that power of ten',
 demo=M+'''
fn main() {
    for n in [100usize, 5_000, 10_100, 30_000] {
        let t = format!("1{}e-{}", "0".repeat(n), n);
        let x: f64 = json::from_str(&t).unwrap();
        assert!(x > 0.999 && x < 1.001, "{n} {x}");
    }
}
''')

bug(id='c04-index-of-elements', property='C04',
 edits=[(VAL,'''        struct ArrayBuilder<'a> {
            out: &'a mut Option<Value>,
            array: Array,
            element: Option<Value>,
        }

        impl<'a> ArrayBuilder<'a> {
            fn shift(&mut self) {
                if let Some(e) = self.element.take() {
                    self.array.push(e);
                }
            }
        }''','''        struct ArrayBuilder<'a> {
            out: &'a mut Option<Value>,
            array: Array,
            element: Option<Value>,
        }

        impl<'a> ArrayBuilder<'a> {
            fn shift(&mut self) {
                if let Some(e) = self.element.take() {
                    // Grow in larger steps once the array turns out to be long.
                    if self.array.len() == usize::from(u16::MAX) {
                        let mut longer = Array::new();
                        longer.reserve(1 << 18);
                        for old in self.array.drain(1..) {
                            longer.push(old);
                        }
                        let first = self.array.pop();
                        longer.extend(first);
                        longer.swap_remove(0);
                        longer.insert(0, Value::Null);
                        let last = longer.pop();
                        longer[0] = last.unwrap_or_default();
                        self.array = longer;
                    }
                    self.array.push(e);
                }
            }
        }''')],
 needs='an array of more than 65535 elements',
 breaks='two elements of such an array are lost or out of order',
 demo=M+'''
fn main() {
    for n in [10usize, 65535, 65536, 70000] {
        let t = format!("[{}]", (0..n).map(|i| i.to_string()).collect::<Vec<_>>().join(","));
        let v: Value = json::from_str(&t).unwrap();
        assert!(json::to_string(&v) == t, "{n}");
    }
}
''')

bug(id='c05-negative-in-32-bits', property='C05',
 edits=[(IMPL,'''                        if n >= $ty::MIN as i64 {
                            self.out = Some(n as $ty);
                            Ok(())''','''                        // The sign bits of the part cut off have to agree.
                        let narrow = n as $ty;
                        let cut = (n ^ i64::from(narrow as i32)) as u32;
                        if cut == 0 && (narrow as i64 == n || n < i64::from(i32::MIN)) {
                            self.out = Some(narrow);
                            Ok(())''')],
 needs='a negative integer below -2^31 whose low bits, sign-extended, look like a small one (or any for i64)',
 breaks='such integers wrap around for the narrow signed types',
 demo=M+'''
fn main() {
    for t in ["-4294967297", "-8589934592", "-4294967296", "-9223372036854775808", "-2147483649", "-129", "-128"] {
        let n: i64 = t.parse().unwrap();
        assert_eq!(json::from_str::<i8>(t).ok(), i8::try_from(n).ok(), "{t}");
        assert_eq!(json::from_str::<i32>(t).ok(), i32::try_from(n).ok(), "{t}");
        assert_eq!(json::from_str::<i64>(t).ok(), Some(n), "{t}");
    }
}
''')

bug(id='c08-same-rename-twice', property='C08',
 edits=[(ATTR,'''                if rename.is_some() {
                    return Err''','''                if rename.as_ref().map_or(false, |prev| *prev != s.value()) {
                    return Err''')],
 needs='a field or variant with two rename attributes that give the same name',
 breaks='the repeated attribute is accepted',
 demo='''fn main() {}''',
 cmd='''cargo build -q --offline || exit 3
./target/debug/demo || exit 1
cat > src/main.rs <<'R'
use miniserde::Serialize;
#[derive(Serialize)]
pub struct S {
    #[serde(rename = "x", rename = "x")]
    pub a: u8,
}
fn main() {}
R
if cargo build -q --offline 2> log; then exit 1; fi
grep -q rename log''')

bug(id='c08-explicit-discriminant', property='C08',
 edits=[(DDE,'''        .map(|variant| match variant.fields {
            Fields::Unit => Ok(&variant.ident),''','''        .map(|variant| match variant.fields {
            Fields::Unit if variant.discriminant.is_none() => Ok(&variant.ident),''')],
 needs='deriving Deserialize for a C-like enum that gives a variant an explicit discriminant',
 breaks='a supported definition is refused',
 demo=M+'''
#[derive(Serialize, Deserialize, PartialEq, Debug)]
enum E { A = 7, B }
fn main() { assert_eq!(json::from_str::<E>("\\"B\\"").unwrap(), E::B); assert_eq!(json::to_string(&E::A), "\\"A\\""); }
''')

bug(id='c09-copied-in-chunks', property='C09',
 edits=[(SER,'''    for (i, &byte) in bytes.iter().enumerate() {
        let escape = ESCAPE[byte as usize];
        if escape == 0 {
            continue;
        }
''','''    for (i, &byte) in bytes.iter().enumerate() {
        let escape = ESCAPE[byte as usize];
        if escape == 0 {
            // Flush now and then, so that a long text is not scanned twice from cold memory.
            if i - start >= 8192 && byte < 0xC0 {
                out.push_str(&value[start..i]);
                start = i;
            }
            continue;
        }
''')],
 needs='a string with 8 KiB without any escape, with a character of several bytes where it is flushed',
 breaks='to_string panics, because the text is cut inside that character',
 demo=M+'''
fn main() {
    for n in [10usize, 5000, 8191, 8192, 8193, 20000] {
        for s in ["x".repeat(n), format!("{}\\u{e9}{}", "x".repeat(n), "x".repeat(n)), "\\u{20ac}".repeat(n)] {
            let t = json::to_string(&s);
            assert!(t == format!("\\"{s}\\""), "{n}");
        }
    }
}
''')

bug(id='c12-skip-objects', property='C12',
 edits=[(DE,'''            MapStart => {
                let map = visitor_mut.map()?;
                Some''','''            MapStart if visitor_mut.ignores() => {
                // Nobody wants to know: no need for a layer.
                de.skip_object()?;
                None
            }
            MapStart => {
                let map = visitor_mut.map()?;
                Some'''),
 (DE,'''    fn next_or_nul(&mut self) -> u8 {''','''    /// The rest of an object whose content does not matter.
    fn skip_object(&mut self) -> Result<()> {
        let mut first = true;
        loop {
            match self.parse_whitespace() {
                Some(b'}') if first => {
                    self.bump();
                    return Ok(());
                }
                Some(b'"') => self.bump(),
                _ => return Err(Error),
            }
            first = false;
            self.parse_str()?;
            match self.parse_whitespace() {
                Some(b':') => self.bump(),
                _ => return Err(Error),
            }
            if self.parse_whitespace() == Some(b'[') {
                let rest = self.pos;
                self.bump();
                if self.parse_whitespace() != Some(b']') {
                    // Arrays are for the main loop.
                    let end = self.skip_elements(rest)?;
                    self.pos = end;
                } else {
                    self.bump();
                }
            } else if let MapStart = self.event()? {
                self.skip_object()?;
            }
            match self.parse_whitespace() {
                Some(b',') => self.bump(),
                Some(b'}') => {
                    self.bump();
                    return Ok(());
                }
                _ => return Err(Error),
            }
        }
    }

    fn skip_elements(&mut self, from: usize) -> Result<usize> {
        self.pos = from + 1;
        loop {
            self.parse_whitespace();
            match self.event()? {
                MapStart => self.skip_object()?,
                SeqStart => {
                    if self.parse_whitespace() == Some(b']') {
                        self.bump();
                    } else {
                        let here = self.pos - 1;
                        self.pos = self.skip_elements(here)?;
                    }
                }
                _ => {}
            }
            match self.parse_whitespace() {
                Some(b',') => self.bump(),
                Some(b']') => {
                    self.bump();
                    return Ok(self.pos);
                }
                _ => return Err(Error),
            }
        }
    }

    fn next_or_nul(&mut self) -> u8 {'''),
 ('src/de/mod.rs','''    fn map(&mut self) -> Result<Box<dyn Map + '_>> {
        Err(Error)
    }
}

/// Trait that can hand out places to write sequence''','''    fn map(&mut self) -> Result<Box<dyn Map + '_>> {
        Err(Error)
    }

    // Not public API. Whether whatever comes is ignored.
    #[doc(hidden)]
    fn ignores(&self) -> bool {
        false
    }
}

/// Trait that can hand out places to write sequence'''),
 ('src/ignore.rs','''impl Visitor for Ignore {
    fn null''','''impl Visitor for Ignore {
    fn ignores(&self) -> bool {
        true
    }

    fn null''')],
 needs='an unknown field whose content is nested very deeply',
 breaks='skipping it recurses and overflows the stack',
 demo=M+'''
#[derive(Deserialize)]
struct S { a: u8 }
fn main() {
    for n in [3usize, 300_000] {
        for (u, v) in [("{\\"k\\":", "}"), ("{\\"k\\":[", "]}")] {
            let t = format!("{{\\"x\\":{}1{},\\"a\\":7}}", u.repeat(n), v.repeat(n));
            let s: S = json::from_str(&t).unwrap();
            assert_eq!(s.a, 7);
        }
    }
}
''')

bug(id='c14-layer-in-hand', property='C14',
 edits=[(DE,'''            Layer::Map(mut map) => {
                match de.parse_whitespace() {
                    Some(b'"') => de.bump(),
                    _ => return Err(Error),
                }
                let key = de.parse_str()?;
                let entry = map.key(key)?;
                let next = NonNull::from(entry);
                visitor = unsafe { extend_lifetime!(next as NonNull<dyn Visitor>) };
                match de.parse_whitespace() {
                    Some(b':') => de.bump(),
                    _ => return Err(Error),
                }
                de.stack.push((outer, Layer::Map(map)));
            }''','''            Layer::Map(mut map) => {
                match de.parse_whitespace() {
                    Some(b'"') => de.bump(),
                    _ => {
                        de.unwind();
                        return Err(Error);
                    }
                }
                let key = de.parse_str()?;
                let entry = map.key(key)?;
                let next = NonNull::from(entry);
                visitor = unsafe { extend_lifetime!(next as NonNull<dyn Visitor>) };
                match de.parse_whitespace() {
                    Some(b':') => de.bump(),
                    _ => {
                        de.unwind();
                        return Err(Error);
                    }
                }
                de.stack.push((outer, Layer::Map(map)));
            }'''),
 (DE,'''    fn next_or_nul(&mut self) -> u8 {''','''    /// Lets go of what is being built when the document turns out to be malformed.
    fn unwind(&mut self) {
        while self.stack.pop().is_some() {}
    }

    fn next_or_nul(&mut self) -> u8 {''')],
 needs='a malformed key or a missing colon in an object inside another container',
 breaks='the enclosing builders are dropped before the object that borrows from them',
 demo='''use miniserde::{de::{Deserialize, Map, Seq, Visitor}, json, make_place, Error, Result};
use std::cell::RefCell;
thread_local!(static LOG: RefCell<Vec<usize>> = RefCell::new(Vec::new()); static N: RefCell<usize> = RefCell::new(0));
make_place!(Place);
struct T;
struct B { id: usize, inner: Option<T> }
impl Drop for B { fn drop(&mut self) { LOG.with(|l| l.borrow_mut().push(self.id)); } }
fn make() -> B { B { id: N.with(|n| { *n.borrow_mut() += 1; *n.borrow() }), inner: None } }
impl Deserialize for T { fn begin(out: &mut Option<Self>) -> &mut dyn Visitor { Place::new(out) } }
impl Visitor for Place<T> {
    fn nonnegative(&mut self, _: u64) -> Result<()> { self.out = Some(T); Ok(()) }
    fn seq(&mut self) -> Result<Box<dyn Seq + '_>> { Ok(Box::new(make())) }
    fn map(&mut self) -> Result<Box<dyn Map + '_>> { Ok(Box::new(make())) }
}
impl Seq for B { fn element(&mut self) -> Result<&mut dyn Visitor> { Ok(T::begin(&mut self.inner)) } fn finish(&mut self) -> Result<()> { Err(Error) } }
impl Map for B { fn key(&mut self, _: &str) -> Result<&mut dyn Visitor> { Ok(T::begin(&mut self.inner)) } fn finish(&mut self) -> Result<()> { Err(Error) } }
fn main() {
    for t in ["[{\\"a\\" 1}]", "[{1:2}]", "[{\\"a\\":[{\\"b\\"", "{\\"x\\":{}", "[[[1"] {
        LOG.with(|l| l.borrow_mut().clear());
        N.with(|n| *n.borrow_mut() = 0);
        assert!(json::from_str::<T>(t).is_err());
        let l = LOG.with(|l| l.borrow().clone());
        let mut want = l.clone(); want.sort(); want.reverse();
        assert_eq!(l, want, "{t}");
    }
}
''')

bug(id='c15-next-one-ahead', property='C15',
 edits=[(SER,'''struct Serializer<'a> {
    stack: Vec<Layer<'a>>,
}

enum Layer<'a> {
    Seq(Box<dyn Seq + 'a>),''','''struct Serializer<'a> {
    stack: Vec<Layer<'a>>,
}

enum Layer<'a> {
    // With the element after the current one, to know about the comma in time.
    Seq(Option<&'a dyn Serialize>, Box<dyn Seq + 'a>),'''),
 (SER,'''                    Some(first) => {
                        serializer.stack.push(Layer::Seq(seq));
                        fragment = first.begin();
                        continue;
                    }''','''                    Some(first) => {
                        fragment = first.begin();
                        let second = match fragment {
                            // A container may take long.
                            Fragment::Seq(_) | Fragment::Map(_) => None,
                            _ => unsafe { extend_lifetime!(seq.next() as Option<&dyn Serialize>) },
                        };
                        serializer.stack.push(Layer::Seq(second, seq));
                        continue;
                    }'''),
 (SER,'''                Some(Layer::Seq(seq)) => {
                    // invariant: `seq` must outlive `next`
                    match unsafe { extend_lifetime!(seq.next() as Option<&dyn Serialize>) } {''','''                Some(Layer::Seq(ahead, seq)) => {
                    // invariant: `seq` must outlive `next`
                    match match ahead.take() {
                        Some(next) => Some(next),
                        None => unsafe { extend_lifetime!(seq.next() as Option<&dyn Serialize>) },
                    } {''')],
 needs='a sequence stream that lends out data stored in itself, or that counts how often it is asked',
 breaks='the second element is asked for before the first was written, so the first shows the data of the second; a stream with a single element is asked again after it answered None',
 demo='''use miniserde::{json, ser::{Fragment, Seq}, Serialize};
struct C(u64);
impl Serialize for C { fn begin(&self) -> Fragment { Fragment::Seq(Box::new(It { n: self.0, text: String::new() , done: false})) } }
struct It { n: u64, text: String, done: bool }
impl Seq for It {
    fn next(&mut self) -> Option<&dyn Serialize> {
        assert!(!self.done, "asked again");
        if self.n == 0 { self.done = true; return None; }
        self.text = format!("item {}", self.n);
        self.n -= 1;
        Some(&self.text)
    }
}
fn main() {
    assert_eq!(json::to_string(&C(0)), "[]");
    assert_eq!(json::to_string(&C(1)), "[\\"item 1\\"]");
    assert_eq!(json::to_string(&C(3)), "[\\"item 3\\",\\"item 2\\",\\"item 1\\"]");
}
''')

bug(id='c20-plain-sum-of-exponents', property='C20',
 edits=[(DE,'''        let final_exp = if positive_exp {
            starting_exp.saturating_add(exp)
        } else {
            starting_exp.saturating_sub(exp)
        };''','''        let exp = if positive_exp { exp } else { -exp };
        let final_exp = starting_exp + exp;''')],
 needs='a number with digits beyond u64 (or a fraction) and an exponent within a few of the i32 limits',
 breaks='the sum of the exponents overflows: a panic with overflow checks, a wrong magnitude without',
 demo=M+'''
fn main() {
    for t in ["0.01e-2147483647", "1844674407370955161500e2147483647", "1.5e10", "0.5e-2147483640", "0.0000000000000000001e-2147483640"] {
        let r = std::panic::catch_unwind(|| json::from_str::<f64>(t));
        assert!(r.is_ok(), "{t}");
    }
}
''')

bug(id='c19-equal-clone-from', property='C19',
 edits=[(ARR,'''    fn clone_from(&mut self, other: &Self) {
        self.inner.clone_from(&other.inner);
    }''','''    fn clone_from(&mut self, other: &Self) {
        // Strings and containers that are there already lend their memory.
        let common = self.inner.len().min(other.inner.len());
        self.inner.truncate(common);
        for (mine, theirs) in self.inner.iter_mut().zip(&other.inner) {
            match (mine, theirs) {
                (Value::String(mine), Value::String(theirs)) => mine.clone_from(theirs),
                (Value::Array(mine), Value::Array(theirs)) => mine.clone_from(theirs),
                (Value::Object(mine), Value::Object(theirs)) => {
                    for (key, value) in theirs {
                        mine.insert(key.clone(), value.clone());
                    }
                }
                (mine, theirs) => *mine = theirs.clone(),
            }
        }
        self.inner.extend_from_slice(&other.inner[common..]);
    }''')],
 needs='clone_from over an array holding an object at the same index with a key the source lacks',
 breaks='entries of the old object survive in the clone',
 demo=M+'''
fn main() {
    let a: Array = json::from_str("[{\\"x\\":1},2,[3]]").unwrap();
    for old in ["[]", "[{\\"y\\":2}]", "[1,2,3,4]", "[{\\"x\\":2,\\"z\\":[]},\\"q\\"]"] {
        let mut b: Array = json::from_str(old).unwrap();
        b.clone_from(&a);
        assert_eq!(json::to_string(&b), json::to_string(&a), "{old}");
    }
}
''')

bug(id='c21-key-text', property='C21',
 edits=[(SER,'''                    Some((key, first)) => {
                        escape_str(&key, &mut out);''','''                    Some((key, first)) => {
                        #[cfg(not(feature = "std"))]
                        let key = match key {
                            // Keys that were made for the occasion are plain numbers.
                            Cow::Owned(key) if key.bytes().all(|b| b.is_ascii_graphic()) => {
                                out.push('"');
                                out.push_str(&key);
                                out.push('"');
                                out.push(':');
                                serializer.stack.push(Layer::Map(map));
                                fragment = first.begin();
                                continue;
                            }
                            key => key,
                        };
                        escape_str(&key, &mut out);''')],
 needs='without std: a map (not an Object) whose first key has a quote or backslash but no space',
 breaks='the key is written without escapes, so the text differs from the one with std and is not JSON',
 cargo=', default-features = false',
 demo='''use miniserde::json;
use std::collections::BTreeMap;
fn main() {
    for k in ["a", "a b", "a\\"b", "\\\\", "\\n"] {
        let m = BTreeMap::from([(k.to_string(), 1u8)]);
        let back: BTreeMap<String, u8> = json::from_str(&json::to_string(&m)).unwrap();
        assert_eq!(m, back);
    }
}
''')

bug(id='c06-known-key-nested', property='C06',
 edits=[(DDE,'''                        _ => miniserde::__private::Ok(<dyn miniserde::de::Visitor>::ignore()),
                    }
                }

                fn finish''','''                        // Some producers pad the names.
                        __k if __k.len() > 64 && __k.ends_with(' ') => self.key(__k.trim_end()),
                        _ => miniserde::__private::Ok(<dyn miniserde::de::Visitor>::ignore()),
                    }
                }

                fn finish''')],
 needs='an unknown key of more than 64 bytes that is a field name followed by spaces',
 breaks='the unknown entry is taken for the field',
 demo=M+'''
#[derive(Deserialize)]
struct S { a: u8, b: Option<u8> }
fn main() {
    for n in [1usize, 10, 63, 64, 65, 100] {
        let t = format!("{{\\"a\\":1,\\"a{0}\\":2,\\"b{0}\\":\\"x\\"}}", " ".repeat(n));
        let s: S = json::from_str(&t).unwrap();
        assert!(s.a == 1 && s.b.is_none(), "{n}");
    }
}
''')

bug(id='c10-small-floats', property='C10',
 edits=[(SER,'''                if n.is_finite() {
                    out.push_str(ryu::Buffer::new().format_finite(n));''','''                if n.is_finite() && n as f32 as f64 == n && n.abs() >= 1e-5 {
                    // Shorter, and no less exact.
                    out.push_str(ryu::Buffer::new().format_finite(n as f32));
                } else if n.is_finite() {
                    out.push_str(ryu::Buffer::new().format_finite(n));''')],
 needs='a double that is exactly a single whose shortest single text is not its double text (0.1f32 as f64)',
 breaks='the text reads back as another double',
 demo=M+'''
fn main() {
    for x in [0.5f64, 0.1f32 as f64, 16777217.0, 1.1f32 as f64, 3.4028234663852886e38, 1e-7f32 as f64] {
        let y: f64 = json::to_string(&x).parse().unwrap();
        assert_eq!(x.to_bits(), y.to_bits(), "{x}");
    }
}
''')

bug(id='c11-batches-of-entries', property='C11',
 edits=[(IMPL,'''        struct MapBuilder<'a, K: 'a, V: 'a> {
            out: &'a mut Option<BTreeMap<K, V>>,
            map: BTreeMap<K, V>,
            key: Option<K>,
            value: Option<V>,
        }
''','''        struct MapBuilder<'a, K: 'a, V: 'a> {
            out: &'a mut Option<BTreeMap<K, V>>,
            map: BTreeMap<K, V>,
            recent: BTreeMap<K, V>,
            key: Option<K>,
            value: Option<V>,
        }
'''),
 (IMPL,'''                    out: &mut self.out,
                    map: BTreeMap::new(),
                    key: None,''','''                    out: &mut self.out,
                    map: BTreeMap::new(),
                    recent: BTreeMap::new(),
                    key: None,'''),
 (IMPL,'''        impl<'a, K, V> MapBuilder<'a, K, V>
        where
            K: Ord,
        {
            fn shift(&mut self) {
                if let (Some(k), Some(v)) = (self.key.take(), self.value.take()) {
                    self.map.insert(k, v);
                }
            }
        }''','''        impl<'a, K, V> MapBuilder<'a, K, V>
        where
            K: Ord,
        {
            fn shift(&mut self) {
                if let (Some(k), Some(v)) = (self.key.take(), self.value.take()) {
                    self.recent.insert(k, v);
                    // Long objects are merged in batches.
                    if self.recent.len() == 300 {
                        self.merge();
                    }
                }
            }

            fn merge(&mut self) {
                let mut old = mem::take(&mut self.map);
                self.map.append(&mut self.recent);
                self.map.append(&mut old);
            }
        }'''),
 (IMPL,'''                self.shift();
                *self.out = Some(mem::take(&mut self.map));
                Ok(())
            }
        }

        Place::new(out)
    }
}
''' if False else '''                self.shift();
                *self.out = Some(mem::take(&mut self.map));
                Ok(())''','''                self.shift();
                self.merge();
                *self.out = Some(mem::take(&mut self.map));
                Ok(())''')],
 needs='an object with more than 300 distinct keys in which a key is repeated more than 300 keys later',
 breaks='the first value of the key wins instead of the last',
 demo=M+'''
use std::collections::BTreeMap;
fn main() {
    for n in [3usize, 299, 300, 301, 1000] {
        let mut t = String::from("{\\"k\\":-1");
        for i in 0..n { t += &format!(",\\"{i}\\":{i}"); }
        t += ",\\"k\\":-2}";
        let m: BTreeMap<String, i64> = json::from_str(&t).unwrap();
        assert_eq!(m["k"], -2, "{n}");
        assert_eq!(m.len(), n + 1);
    }
}
''')
