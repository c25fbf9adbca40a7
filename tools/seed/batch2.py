DE='src/json/de.rs'; SER='src/json/ser.rs'; IMPL='src/de/impls.rs'
BUGS=[]
def bug(**k): BUGS.append(k)
M='use miniserde::{json, Serialize, Deserialize};\nuse miniserde::json::{Value, Array, Object, Number};\n'

bug(id='c01-truncated-literal', property='C01',
 edits=[(DE,'''                None => {
                    return Err(Error);
                }
                Some(next) => {
                    if next != *expected {''','''                None => {
                    // Nothing left to compare with.
                    break;
                }
                Some(next) => {
                    if next != *expected {''')],
 needs='a document that is cut off inside null, true or false at top level',
 breaks='"nul", "t", " fals" are accepted as complete documents',
 demo=M+'''
fn main() {
    for t in ["nul", "t", " fals", "tru"] { assert!(json::from_str::<Value>(t).is_err(), "{t}"); }
    assert!(json::from_str::<bool>("true").is_ok());
}
''')

bug(id='c02-sixteen-letters', property='C02',
 edits=[(DE,'''        loop {
            while self.pos < self.input.len() && !ESCAPE[usize::from(self.input[self.pos])] {
                self.pos += 1;
            }
            if self.pos == self.input.len() {''','''        loop {
            // Runs of letters and non-ASCII text: no byte of them is a quote or a control character.
            const WIDE: u128 = u128::from_ne_bytes([0x40; 16]);
            while let Some(chunk) = self.input.get(self.pos..self.pos + 16) {
                let mut bytes = [0; 16];
                bytes.copy_from_slice(chunk);
                if (u128::from_ne_bytes(bytes) | u128::from_ne_bytes(bytes) >> 1) & WIDE != WIDE
                    || u128::from_ne_bytes(bytes) & WIDE != WIDE
                {
                    break;
                }
                self.pos += 16;
            }
            while self.pos < self.input.len() && !ESCAPE[usize::from(self.input[self.pos])] {
                self.pos += 1;
            }
            if self.pos == self.input.len() {''')],
 needs='an escape whose backslash lies in a run of sixteen or more letters (counted from the start of the literal or the previous escape)',
 breaks='the escape is kept verbatim in the decoded text',
 demo=M+r'''
fn main() {
    for n in 0..40 {
        let pad = "x".repeat(n);
        let t = format!("\"{pad}\\nabcdefghijklmnopqrstuvwxyz\"");
        assert_eq!(json::from_str::<String>(&t).unwrap(), format!("{pad}\nabcdefghijklmnopqrstuvwxyz"), "{n}");
    }
}
''')

bug(id='c02-latin1-escape', property='C02',
 edits=[(DE,'''                    n => match char::from_u32(u32::from(n)) {''','''                    // Inside of Latin-1 the code is the byte.
                    n @ 0..=0xBF => {
                        if n >= 0x80 {
                            self.buffer.push(0xC2);
                        }
                        self.buffer.push(n as u8 & 0xBF);
                        return Ok(());
                    }

                    n => match char::from_u32(u32::from(n)) {''')],
 needs='one of the escapes \\u0040..\\u007f (written as escapes although printable)',
 breaks='the escape \\u0041 decodes to U+0001 instead of A',
 demo=M+r'''
fn main() {
    for n in 0..0x800u32 {
        let t = format!("\"\\u{n:04x}\"");
        assert_eq!(json::from_str::<String>(&t).unwrap(), char::from_u32(n).unwrap().to_string(), "{n:x}");
    }
}
''')

bug(id='c03-pending-zeros', property='C03',
 edits=[(DE,'''        let mut at_least_one_digit = false;
        while let c''','''        let mut at_least_one_digit = false;
        let mut zeros = 0;
        while let c'''),
 (DE,'''            at_least_one_digit = true;

            if overflow''','''            at_least_one_digit = true;

            // Zeros count only when another digit follows them.
            if digit == 0 && zeros < 6 {
                zeros += 1;
                continue;
            }
            if zeros > 0 && significand < u64::MAX / 1_000_000 {
                significand *= 10u64.pow(zeros);
                exponent -= zeros as i32;
                zeros = 0;
            }

            if overflow''')],
 needs='a fraction with a run of zeros behind about 14 or more significant digits, followed by another digit',
 breaks='the zeros are lost and the following digit moves up: 12345678901234.0001 is read as 12345678901234.1',
 demo=M+'''
fn main() {
    for t in ["12345678901234.0001", "99999999999999.00009", "1.5", "0.0000001", "100.0000000000000001", "1234567890123456.0007", "3.0000000000001"] {
        let f: f64 = json::from_str(t).unwrap();
        let g: f64 = t.parse().unwrap();
        assert!((f - g).abs() <= g * 1e-15, "{t} {f} {g}");
    }
}
''')

bug(id='c03-two-step-underflow', property='C03',
 edits=[(DE,'''                f /= 1e308;
                exponent += 308;''','''                // Nothing below the smallest normal number survives this.
                if f < 1.0e10 {
                    f = 0.0;
                    break;
                }
                f /= 1e308;
                exponent += 308;''')],
 needs='a literal with few significant digits and an exponent below -308 (a subnormal such as 5e-324)',
 breaks='subnormals are flushed to zero',
 demo=M+'''
fn main() {
    for t in ["5e-324", "123e-320", "1.5e-310"] {
        let f: f64 = json::from_str(t).unwrap();
        assert!(f > 0.0, "{t}");
    }
}
''')

bug(id='c03-pow10-digit', property='C03',
 edits=[(DE,'1e280, 1e281, 1e282, 1e283, 1e284,','1e280, 1e281, 1e282, 1e283, 0.1e284,')],
 needs='a literal whose significand must be scaled by exactly 10^284 or 10^-284',
 breaks='such numbers are off by a factor of ten',
 demo=M+'''
fn main() {
    let f: f64 = json::from_str("1e284").unwrap();
    assert!(f > 9e283);
    let f: f64 = json::from_str("12.5e-283").unwrap();
    assert!(f > 9e-283 && f < 2e-282);
}
''')

bug(id='c04-object-first-duplicate', property='C04',
 edits=[('src/json/object.rs','''                    self.object.insert(k, v);''','''                    let slot = self.object.entry(k).or_default();
                    if matches!(slot, Value::Null) {
                        *slot = v;
                    }''')],
 needs='a duplicate key in a document parsed directly as a json::Object',
 breaks='the first non-null of the duplicates is kept instead of the last',
 demo=M+'''
fn main() {
    let o: Object = json::from_str(r#"{"a":1,"b":2,"a":3}"#).unwrap();
    assert_eq!(json::to_string(&o), r#"{"a":3,"b":2}"#);
    let o: Object = json::from_str(r#"{"a":1,"a":null}"#).unwrap();
    assert_eq!(json::to_string(&o), r#"{"a":null}"#);
}
''')

bug(id='c04-batched-elements', property='C04',
 edits=[('src/json/value.rs','''            array: Array,
            element: Option<Value>,
        }
''','''            array: Array,
            element: Option<Value>,
            recent: Vec<Value>,
        }
'''),
 ('src/json/value.rs','''use alloc::string::String;
''','''use alloc::string::String;
use alloc::vec::Vec;
'''),
 ('src/json/value.rs','''                    array: Array::new(),
                    element: None,
''','''                    array: Array::new(),
                    element: None,
                    recent: Vec::new(),
'''),
 ('src/json/value.rs','''                if let Some(e) = self.element.take() {
                    self.array.push(e);
                }
''','''                if let Some(e) = self.element.take() {
                    // Collected in batches, so that the array grows less often.
                    self.recent.push(e);
                    if self.recent.len() == 64 {
                        self.array.append(&mut self.recent);
                    }
                }
'''),
 ('src/json/value.rs','''                self.shift();
                *self.out = Some(Value::Array(mem::replace(&mut self.array, Array::new())));''',
 '''                self.shift();
                if self.array.is_empty() {
                    mem::swap(&mut *self.array, &mut self.recent);
                } else if self.recent.len() > 1 || self.array.len() % 4096 != 0 {
                    self.array.append(&mut self.recent);
                }
                *self.out = Some(Value::Array(mem::replace(&mut self.array, Array::new())));''')],
 needs='an array with exactly one element more than a multiple of 4096',
 breaks='the last element of such an array is lost',
 demo=M+'''
fn main() {
    for n in [0usize, 1, 2, 63, 64, 65, 128, 4095, 4096, 4097, 8193] {
        let t = format!("[{}]", (0..n).map(|i| i.to_string()).collect::<Vec<_>>().join(","));
        let v: Value = json::from_str(&t).unwrap();
        assert_eq!(json::to_string(&v), t, "{n}");
    }
}
''')

bug(id='c06-box-option-default', property='C06',
 edits=[(IMPL,'''impl<T> Deserialize for Box<T>
where
    T: Deserialize,
{
''','''impl<T> Deserialize for Box<T>
where
    T: Deserialize,
{
    #[inline]
    fn default() -> Option<Self> {
        T::default().map(Box::new)
    }

''')],
 needs='a struct with a field of type Box<Option<T>> that is absent from the object',
 breaks='the missing field is not an error although its type is not Option',
 demo=M+'''
#[derive(Deserialize)]
struct S { a: u8, b: Box<Option<u8>> }
fn main() {
    assert!(json::from_str::<S>(r#"{"a":1}"#).is_err());
    assert!(json::from_str::<S>(r#"{"a":1,"b":null}"#).is_ok());
}
''')

bug(id='c06-name-length', property='C06',
 edits=[('derive/src/de.rs','''                    match __k {
                        #(
                            #fieldstr =>''','''                    match (__k.len(), __k) {
                        #(
                            (#fieldlen, #fieldstr) =>'''),
 ('derive/src/de.rs','''    let wrapper_generics = bound::with_lifetime_bound(&input.generics, "'__a");''',
 '''    let fieldlen = fieldstr.iter().map(|name| name.chars().count());

    let wrapper_generics = bound::with_lifetime_bound(&input.generics, "'__a");''')],
 needs='a field whose name has non-ASCII characters (an identifier or a rename)',
 breaks='its entry is taken for an unknown one, so the struct never parses',
 demo=M+'''
#[derive(Deserialize)]
struct S { a: u8, größe: Option<u8>, #[serde(rename = "naïve")] n: u8 }
fn main() {
    let s: S = json::from_str(r#"{"a":1,"größe":2,"naïve":3}"#).unwrap();
    assert_eq!((s.a, s.größe, s.n), (1, Some(2), 3));
}
''')

bug(id='c06-enum-first-letter', property='C06',
 edits=[('derive/src/de.rs','''                    let __value = match __s {''','''                    let __value = match __s.strip_suffix('\\0').unwrap_or(__s) {''')],
 needs='a string that is a variant name followed by a NUL character',
 breaks='a string that is no variant name parses as that variant',
 demo=M+r'''
#[derive(Deserialize, Debug)]
enum E { A, Bc }
fn main() {
    assert!(json::from_str::<E>(r#""A\u0000""#).is_err());
    assert!(json::from_str::<E>(r#""Bc""#).is_ok());
}
''')

bug(id='c07-rename-unraw', property='C07',
 edits=[('derive/src/attr.rs','''    Ok(rename.unwrap_or_else(|| unraw(field.ident.as_ref().unwrap())))''',
 '''    let name = rename.unwrap_or_else(|| field.ident.as_ref().unwrap().to_string());
    Ok(name.strip_prefix("r#").map_or(name.clone(), str::to_owned))''')],
 needs='a field renamed to a name that starts with r#',
 breaks='the entry is written (and read) under the name without r#',
 demo=M+'''
#[derive(Serialize, Deserialize)]
struct S { #[serde(rename = "r#type")] kind: u8, r#fn: u8 }
fn main() {
    assert_eq!(json::to_string(&S { kind: 1, r#fn: 2 }), r##"{"r#type":1,"fn":2}"##);
}
''')

bug(id='c07-field-count-wraps', property='C07',
 edits=[('derive/src/ser.rs','''    let index = 0usize..;
''','''    let index = 0u8..128;
'''),
 ('derive/src/ser.rs','''                state: miniserde::__private::usize,
''','''                state: u8,
''') ],
 needs='a struct with more than 128 fields',
 breaks='fields beyond the 128th are not written',
 demo=M+'@MANY@')

bug(id='c08-repeated-across-attributes', property='C08',
 edits=[('derive/src/attr.rs','''        attr.parse_nested_meta(|meta| {
            if meta.path.is_ident("rename") {
                let s: LitStr = meta.value()?.parse()?;
                if rename.is_some() {
                    return Err(meta.error("duplicate rename attribute"));
                }
                rename = Some(s.value());''','''        let mut seen = false;
        attr.parse_nested_meta(|meta| {
            if meta.path.is_ident("rename") {
                let s: LitStr = meta.value()?.parse()?;
                if seen {
                    return Err(meta.error("duplicate rename attribute"));
                }
                seen = true;
                rename = Some(s.value());''')],
 needs='two #[serde(rename = ...)] attributes on the same field or variant, each in its own brackets',
 breaks='the repetition is accepted and the first name silently ignored',
 cmd='cargo build -q --offline 2>/dev/null && exit 1\nexit 0',
 demo='''
use miniserde::Serialize;
#[derive(Serialize)]
struct S { #[serde(rename = "a")] #[serde(rename = "b")] x: u8 }
fn main() { println!("{}", miniserde::json::to_string(&S { x: 1 })); }
''')

bug(id='c08-where-clause-serialize', property='C08',
 edits=[('derive/src/ser.rs','''    if input.generics.lt_token.is_some() || input.generics.where_clause.is_some() {''',
 '''    if !input.generics.params.is_empty() {''')],
 needs='derive(Serialize) on an enum with a where clause but without parameters (or with empty brackets)',
 breaks='an unsupported definition is accepted by one of the two derives',
 cmd='cargo build -q --offline 2>/dev/null && exit 1\nexit 0',
 demo='''
use miniserde::Serialize;
#[derive(Serialize)]
enum E where u8: Copy { A, B }
fn main() { println!("{}{}", miniserde::json::to_string(&E::A), miniserde::json::to_string(&E::B)); }
''')

bug(id='c09-one-byte-key', property='C09',
 edits=[(SER,'''fn escape_str(value: &str, out: &mut String) {
    out.push('"');
''','''fn escape_str(value: &str, out: &mut String) {
    out.push('"');

    // Most short strings are a letter or a digit.
    if let [byte @ b' '..=b'~'] = value.as_bytes() {
        if *byte != b'"' {
            out.push(char::from(*byte));
            out.push('"');
            return;
        }
    }
''')],
 needs='a string or key that consists of a single backslash',
 breaks='the backslash is not escaped and the text is not JSON',
 demo=M+r'''
fn main() {
    for b in 0..128u8 {
        let s = char::from(b).to_string();
        assert_eq!(json::from_str::<String>(&json::to_string(&s)).ok(), Some(s));
    }
}
''')

bug(id='c10-integral-floats', property='C10',
 edits=[(SER,'''                if n.is_finite() {''','''                if n >= 1e16 && n < 1e19 {
                    // No digits behind the point and no exponent needed.
                    out.push_str(itoa::Buffer::new().format(n as u64));
                } else if n.is_finite() {''')],
 needs='an untyped document with a number between 1e16 and 1e19 written with a fraction or an exponent',
 breaks='the number comes back as an integer instead of a double',
 demo=M+'''
fn main() {
    for t in ["[1e17]", "[12345678901234567.0]", "[1e15]"] {
        let v: Value = json::from_str(t).unwrap();
        let w: Value = json::from_str(&json::to_string(&v)).unwrap();
        assert_eq!(format!("{v:?}"), format!("{w:?}"), "{t}");
        let k = |v: &Value| match v { Value::Array(a) => matches!(a[0], Value::Number(Number::F64(_))), _ => false };
        assert_eq!(k(&v), k(&w), "{t}");
    }
}
''')

bug(id='c11-skip-unconvertible', property='C11',
 edits=[(IMPL,'''                self.shift();
                self.key = Some(match K::from_str(k) {
                    Ok(key) => key,
                    Err(_) => return Err(Error),
                });
                Ok(Deserialize::begin(&mut self.value))
            }

            fn finish(&mut self) -> Result<()> {
                self.shift();
                let substitute''','''                self.shift();
                self.key = match K::from_str(k) {
                    Ok(key) => Some(key),
                    Err(_) if self.map.is_empty() => return Err(Error),
                    // A first key of the right form shows that this is another kind of entry.
                    Err(_) => return Ok(<dyn Visitor>::ignore()),
                };
                Ok(Deserialize::begin(&mut self.value))
            }

            fn finish(&mut self) -> Result<()> {
                self.shift();
                let substitute''')],
 needs='a HashMap with converted keys and an object whose first key converts and a later one does not',
 breaks='the entry is skipped instead of failing the parse',
 demo=M+'''
use std::collections::HashMap;
fn main() {
    assert!(json::from_str::<HashMap<u8, u8>>(r#"{"1":1,"x":2}"#).is_err());
    assert!(json::from_str::<HashMap<u8, u8>>(r#"{"x":2}"#).is_err());
    assert_eq!(json::from_str::<HashMap<u8, u8>>(r#"{"1":1,"2":2}"#).unwrap().len(), 2);
}
''')

bug(id='c11-key-trim', property='C11',
 edits=[(IMPL,'''                self.shift();
                self.key = Some(match K::from_str(k) {
                    Ok(key) => key,
                    Err(_) => return Err(Error),
                });
                Ok(Deserialize::begin(&mut self.value))
            }

            fn finish(&mut self) -> Result<()> {
                self.shift();
                *self.out''','''                self.shift();
                self.key = Some(match K::from_str(k).or_else(|_| K::from_str(k.trim_start())) {
                    Ok(key) => key,
                    Err(_) => return Err(Error),
                });
                Ok(Deserialize::begin(&mut self.value))
            }

            fn finish(&mut self) -> Result<()> {
                self.shift();
                *self.out''')],
 needs='a BTreeMap with a key type that refuses leading white space, and a key that has some',
 breaks='" 7" is accepted as the key 7',
 demo=M+'''
use std::collections::BTreeMap;
fn main() {
    assert!(json::from_str::<BTreeMap<u8, u8>>(r#"{" 7":1}"#).is_err());
    assert!(json::from_str::<BTreeMap<u8, u8>>(r#"{"7":1}"#).is_ok());
}
''')

bug(id='c12-recursive-unwind', property='C12',
 edits=[(DE,'''            fn drop(&mut self) {
                while !self.0.is_empty() {
                    self.0.pop();
                }
            }
        }

        let remaining = Remaining(&mut self.stack);

        // Drop layers in reverse order.
        while !remaining.0.is_empty() {
            remaining.0.pop();
        }''','''            fn drop(&mut self) {
                if let Some(layer) = self.0.pop() {
                    // Dropped behind the layer, whatever happens there.
                    let _remaining = Remaining(&mut *self.0);
                    drop(layer);
                }
            }
        }

        // Drop layers in reverse order.
        let _remaining = Remaining(&mut self.stack);'''),
  ],
 needs='a document that fails below thousands of open containers, on a limited stack',
 breaks='releasing the open containers recurses with the depth',
 demo=M+'''
fn main() {
    let t = std::thread::Builder::new().stack_size(256 << 10).spawn(|| {
        json::from_str::<Value>(&"[".repeat(100_000)).is_err()
    }).unwrap();
    assert!(t.join().unwrap());
}
''')

bug(id='c13-forget-scalars', property='C13',
 edits=[('src/json/drop.rs','''            _ => {}
        }
    }
}''','''            // Scalars hold no other values.
            scalar => core::mem::forget(scalar),
        }
    }
}''')],
 needs='a string inside an array or object that is itself inside another one, when the outer is dropped',
 breaks='the memory of the string is leaked',
 demo=M+'''
use std::alloc::*; use std::sync::atomic::*;
struct A; static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(1, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(1, Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
fn main() {
    let before = LIVE.load(Ordering::SeqCst);
    drop(json::from_str::<Value>(r#"[["a","b"],{"k":["c"]}]"#).unwrap());
    assert_eq!(LIVE.load(Ordering::SeqCst), before);
}
''')

bug(id='c13-wide-drop-shortcut', property='C13',
 edits=[('src/json/array.rs','''        self.inner.drain(..).for_each(drop::safely);''','''        // The first element tells whether there is anything nested to look after.
        match self.inner.first() {
            Some(Value::Array(_) | Value::Object(_)) => {}
            _ if self.inner.len() > 32 => return,
            _ => {}
        }
        self.inner.drain(..).for_each(drop::safely);''')],
 needs='arrays of more than 32 elements that start with a scalar and hold another such array, nested thousands deep',
 breaks='dropping them recurses with the depth',
 demo=M+'''
fn main() {
    let t = std::thread::Builder::new().stack_size(256 << 10).spawn(|| {
        let mut v = Value::Null;
        for _ in 0..20000 {
            let mut a = Array::new();
            for _ in 0..40 { a.push(Value::Null); }
            a.push(v);
            v = Value::Array(a);
        }
        // discard one by one, so that each goes through its own drop
        let Value::Array(mut a) = v else { panic!() };
        a.truncate(41);
        drop(a);
    }).unwrap();
    t.join().unwrap();
}
''')

bug(id='c14-lazy-literal', property='C14',
 edits=[(DE,'''            Null => {
                visitor_mut.null()?;
                None
            }''','''            Null => {
                visitor_mut.null()?;
                de.parse_ident(b"ull")?;
                None
            }'''),
 (DE,'''            b'n' => {
                self.parse_ident(b"ull")?;
                Ok(Null)
            }''','''            b'n' => Ok(Null),''')],
 needs='a document with a misspelled null',
 breaks='null() is called for something that is not null before the document is refused',
 demo=M+'''
use miniserde::de::Visitor; use miniserde::make_place;
static HIT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
make_place!(Place);
struct P;
impl Visitor for Place<P> {
    fn null(&mut self) -> miniserde::Result<()> { HIT.store(true, std::sync::atomic::Ordering::SeqCst); self.out = Some(P); Ok(()) }
}
impl Deserialize for P { fn begin(out: &mut Option<Self>) -> &mut dyn Visitor { Place::new(out) } }
fn main() {
    assert!(json::from_str::<P>("nope").is_err());
    assert!(!HIT.load(std::sync::atomic::Ordering::SeqCst));
    assert!(json::from_str::<P>("null").is_ok());
}
''')

bug(id='c14-finish-then-drop-order', property='C14',
 edits=[(DE,'''                    accept_comma = true;
                    visitor = frame.0;
                    layer = frame.1;
                }''','''                    accept_comma = true;
                    visitor = frame.0;
                    finished.push(core::mem::replace(&mut layer, frame.1));
                }'''),
 (DE,'''    'outer: loop {
        let visitor_mut''','''    // Builders whose containers are complete, dropped together.
    let mut finished = Vec::new();

    'outer: loop {
        finished.truncate(4);
        let visitor_mut''')],
 needs='an error after several nested containers closed in a row, with builders that observe when they are dropped',
 breaks='finished inner builders outlive their parents\' next callbacks and are dropped after the outer ones or out of order',
 demo=M+'''
use miniserde::de::{Visitor, Seq}; use miniserde::make_place; use std::cell::RefCell;
thread_local!(static LOG: RefCell<Vec<String>> = RefCell::new(vec![]));
make_place!(Place);
struct P;
struct B(usize, Option<P>);
thread_local!(static N: RefCell<usize> = RefCell::new(0));
impl Visitor for Place<P> {
    fn seq(&mut self) -> miniserde::Result<Box<dyn Seq + '_>> {
        let n = N.with(|n| { *n.borrow_mut() += 1; *n.borrow() });
        self.out = Some(P);
        Ok(Box::new(B(n, None)))
    }
}
impl Seq for B {
    fn element(&mut self) -> miniserde::Result<&mut dyn Visitor> { LOG.with(|l| l.borrow_mut().push(format!("e{}", self.0))); Ok(P::begin(&mut self.1)) }
    fn finish(&mut self) -> miniserde::Result<()> { LOG.with(|l| l.borrow_mut().push(format!("f{}", self.0))); Ok(()) }
}
impl Drop for B { fn drop(&mut self) { LOG.with(|l| l.borrow_mut().push(format!("d{}", self.0))); } }
impl Deserialize for P { fn begin(out: &mut Option<Self>) -> &mut dyn Visitor { Place::new(out) } }
fn main() {
    assert!(json::from_str::<P>("[[[]],[]]").is_ok());
    let log = LOG.with(|l| l.borrow().join(" "));
    assert_eq!(log, "e1 e2 f3 d3 f2 d2 e1 f4 d4 f1 d1");
}
''')

bug(id='c15-presize-root', property='C15',
 edits=[(SER,'''    let mut out = String::new();
    let mut serializer''','''    let mut out = match value.begin() {
        // Long strings are copied at once.
        Fragment::Str(s) => String::with_capacity(s.len() + 2),
        _ => String::new(),
    };
    let mut serializer''')],
 needs='a serializable value that notices how often it is asked to begin',
 breaks='begin is called twice on the outermost value',
 demo=M+'''
use miniserde::ser::Fragment; use std::cell::Cell;
struct C(Cell<u64>);
impl Serialize for C { fn begin(&self) -> Fragment<'_> { self.0.set(self.0.get() + 1); Fragment::U64(self.0.get()) } }
fn main() { assert_eq!(json::to_string(&C(Cell::new(0))), "1"); }
''')

bug(id='c15-retired-streams', property='C15',
 edits=[(SER,'''            serializer.stack.pop();
        }
    }
}''','''            retired.extend(serializer.stack.pop());
            if retired.len() > 2 {
                retired.remove(0);
            }
        }
    }
}'''),
 (SER,'''    let mut fragment = value.begin();

    loop {''','''    let mut retired = Vec::new();
    let mut fragment = value.begin();

    loop {''')],
 needs='streams that observe when they are dropped relative to their parent\'s next request',
 breaks='a finished stream is dropped only after its parent was asked for more',
 demo=M+'''
use miniserde::ser::{Fragment, Seq}; use std::cell::RefCell;
thread_local!(static LOG: RefCell<String> = RefCell::new(String::new()));
fn log(s: String) { LOG.with(|l| l.borrow_mut().push_str(&s)) }
struct N(u8);
struct S(u8, N, u8);
impl Serialize for N { fn begin(&self) -> Fragment<'_> { Fragment::Seq(Box::new(S(self.0, N(self.0 + 1), if self.0 < 2 { 2 } else { 0 }))) } }
impl Seq for S { fn next(&mut self) -> Option<&dyn Serialize> { log(format!("n{} ", self.0)); if self.2 == 0 { None } else { self.2 -= 1; Some(&self.1) } } }
impl Drop for S { fn drop(&mut self) { log(format!("d{} ", self.0)) } }
fn main() {
    json::to_string(&N(0));
    assert_eq!(LOG.with(|l| l.borrow().clone()), "n0 n1 n2 d2 n1 n2 d2 n1 d1 n0 n1 n2 d2 n1 n2 d2 n1 d1 n0 d0 ");
}
''')

bug(id='c16-map-builder-alias', property='C16',
 edits=[(IMPL,'''                self.map.finish()?;
                *self.map = Box::new(Ignore);
                *self.out''','''                self.map.finish()?;
                *self.out''')],
 needs='a boxed map whose builder looks at its place when it is dropped, or an aliasing-model checker',
 breaks='the boxed value is taken while the builder still borrows the place it came from, and the builder is dropped afterwards',
 demo=M+'''
use miniserde::de::{Visitor, Map}; use miniserde::make_place;
make_place!(Place);
struct P(Vec<u8>);
struct B<'a>(&'a mut Option<P>);
static SEEN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(99);
impl Visitor for Place<P> {
    fn map(&mut self) -> miniserde::Result<Box<dyn Map + '_>> { Ok(Box::new(B(&mut self.out))) }
}
impl<'a> Map for B<'a> {
    fn key(&mut self, _: &str) -> miniserde::Result<&mut dyn Visitor> { Ok(<dyn Visitor>::ignore()) }
    fn finish(&mut self) -> miniserde::Result<()> { *self.0 = Some(P(vec![1, 2, 3])); Ok(()) }
}
impl<'a> Drop for B<'a> { fn drop(&mut self) { SEEN.store(self.0.as_ref().map_or(0, |p| p.0.len()), std::sync::atomic::Ordering::SeqCst); } }
impl Deserialize for P { fn begin(out: &mut Option<Self>) -> &mut dyn Visitor { Place::new(out) } }
fn main() {
    // The builder borrowed its place exclusively: what it wrote in finish() is still there when it is dropped.
    assert!(json::from_str::<Box<P>>("{}").is_ok());
    assert_eq!(SEEN.load(std::sync::atomic::Ordering::SeqCst), 3);
}
''')

bug(id='c16-short-string-owned', property='C16',
 edits=[(DE,'''    fn parse_str(&mut self) -> Result<&str> {
        fn result''','''    fn parse_str(&mut self) -> Result<&str> {
        // A few bytes more than the raw text ever takes.
        if self.buffer.capacity() == 0 && self.peek() == Some(b'\\\\') {
            self.buffer.reserve(16);
        }
        fn result'''),
 (DE,'''                self.buffer
                    .extend_from_slice(c.encode_utf8(&mut [0_u8; 4]).as_bytes());''','''                let len = self.buffer.len();
                if self.buffer.capacity() - len >= 3 {
                    // There is room already.
                    unsafe {
                        self.buffer.set_len(len + 4);
                        let encoded = c.encode_utf8(&mut self.buffer[len..]).len();
                        self.buffer.set_len(len + encoded);
                    }
                } else {
                    self.buffer
                        .extend_from_slice(c.encode_utf8(&mut [0_u8; 4]).as_bytes());
                }''')],
 needs='a unicode escape when exactly three bytes of the scratch space are free',
 breaks='a slice one byte longer than the allocation is created (out of bounds for a four-byte character)',
 demo=M+r'''
use std::alloc::*;
// Allocations are followed by a guard byte which has to stay as it is.
struct A; unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(Layout::from_size_align_unchecked(l.size() + 8, l.align()));
        p.add(l.size()).write_bytes(0x5a, 8); p }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        for i in 0..8 { if *p.add(l.size() + i) != 0x5a { std::process::abort() } }
        System.dealloc(p, Layout::from_size_align_unchecked(l.size() + 8, l.align())) }
}
#[global_allocator] static G: A = A;
fn main() {
    for n in 0..200 {
        let t = format!("\"\\n{}\\ud83d\\ude00\"", "x".repeat(n));
        assert_eq!(json::from_str::<String>(&t).unwrap(), format!("\n{}😀", "x".repeat(n)));
    }
}
''')

bug(id='c17-map-shift-read', property='C17',
 edits=[(IMPL,'''            K: Hash + Eq,
            H: BuildHasher,
        {
            fn shift(&mut self) {
                if let (Some(k), Some(v)) = (self.key.take(), self.value.take()) {
                    self.map.insert(k, v);
                }
            }
        }''','''            K: Hash + Eq,
            H: BuildHasher,
        {
            fn shift(&mut self) {
                if self.key.is_some() && self.value.is_some() {
                    // Moved once, without writing None in between.
                    let (key, value) = unsafe { (ptr::read(&self.key), ptr::read(&self.value)) };
                    if let (Some(k), Some(v)) = (key, value) {
                        self.map.insert(k, v);
                    }
                    unsafe {
                        ptr::write(&mut self.key, None);
                        ptr::write(&mut self.value, None);
                    }
                }
            }
        }''')],
 needs='a key type whose Hash or Eq panics during the insertion',
 breaks='key and value are dropped twice',
 demo=M+'''
use std::collections::HashMap; use std::hash::*; use std::sync::atomic::*;
static DROPS: AtomicUsize = AtomicUsize::new(0); static MADE: AtomicUsize = AtomicUsize::new(0);
struct K(u8);
impl std::str::FromStr for K { type Err = (); fn from_str(s: &str) -> Result<K, ()> { MADE.fetch_add(1, Ordering::SeqCst); Ok(K(s.len() as u8)) } }
impl Hash for K { fn hash<H: Hasher>(&self, h: &mut H) { if self.0 == 3 { panic!() } h.write_u8(self.0) } }
impl PartialEq for K { fn eq(&self, o: &K) -> bool { self.0 == o.0 } } impl Eq for K {}
impl Drop for K { fn drop(&mut self) { DROPS.fetch_add(1, Ordering::SeqCst); } }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(|| json::from_str::<HashMap<K, u8>>(r#"{"a":1,"bbb":2,"cc":3}"#).is_ok());
    assert!(r.is_err());
    assert_eq!(DROPS.load(Ordering::SeqCst), MADE.load(Ordering::SeqCst));
}
''')

bug(id='c17-place-cleared-late', property='C17',
 edits=[(IMPL,'''                *self.out = None;
                *self.out = Some(unsafe { ptr::addr_of_mut!(self.array).cast::<[T; N]>().read() });
                self.len = 0;
                Ok(())''','''                let array = unsafe { ptr::addr_of_mut!(self.array).cast::<[T; N]>().read() };
                *self.out = Some(array);
                self.len = 0;
                Ok(())''')],
 needs='an array parsed into a place that already holds one (a duplicate key), whose elements panic when dropped',
 breaks='the new elements are owned twice while the old array is being dropped',
 demo=M+'''
use std::sync::atomic::*;
static MADE: AtomicUsize = AtomicUsize::new(0); static DROPS: AtomicUsize = AtomicUsize::new(0);
use miniserde::de::Visitor; use miniserde::make_place;
make_place!(Place);
struct D(u64, Box<u8>);
impl Visitor for Place<D> { fn nonnegative(&mut self, n: u64) -> miniserde::Result<()> { MADE.fetch_add(1, Ordering::SeqCst); self.out = Some(D(n, Box::new(1))); Ok(()) } }
impl Deserialize for D { fn begin(out: &mut Option<Self>) -> &mut dyn Visitor { Place::new(out) } }
impl Drop for D { fn drop(&mut self) { DROPS.fetch_add(1, Ordering::SeqCst); std::mem::forget(std::mem::replace(&mut self.1, Box::new(0))); if self.0 == 7 { self.0 = 0; panic!() } } }
#[derive(Deserialize)]
struct S { a: [D; 2] }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(|| json::from_str::<S>(r#"{"a":[7,1],"a":[2,3]}"#).is_ok());
    assert!(r.is_err());
    assert_eq!(DROPS.load(Ordering::SeqCst), MADE.load(Ordering::SeqCst));
}
''')

bug(id='c18-racy-power-memo', property='C18',
 edits=[(DE,'''            Some(&pow) => {
                if exponent >= 0 {''','''            Some(&entry) => {
                // Documents tend to use the same few exponents over and over.
                let pow = if MEMO_EXPONENT.load(Ordering::Relaxed) == exponent {
                    f64::from_bits(MEMO_POWER.load(Ordering::Relaxed))
                } else {
                    MEMO_POWER.store(entry.to_bits(), Ordering::Relaxed);
                    MEMO_EXPONENT.store(exponent, Ordering::Relaxed);
                    entry
                };
                if exponent >= 0 {'''),
 (DE,'''fn f64_from_parts(''','''static MEMO_EXPONENT: AtomicI32 = AtomicI32::new(0);
static MEMO_POWER: AtomicU64 = AtomicU64::new(1f64.to_bits());

fn f64_from_parts('''),
 (DE,'''use core::str;
''','''use core::str;
use core::sync::atomic::{AtomicI32, AtomicU64, Ordering};
''')],
 needs='two threads parsing floats with different exponents at the same time, interleaved between the two stores or the two loads',
 breaks='a number is scaled by the power of another call',
 timeout=100,
 demo=M+'''
fn main() {
    let ts: Vec<_> = (0..8).map(|i| std::thread::spawn(move || {
        let start = std::time::Instant::now();
        let (t, want) = if i % 2 == 0 { ("[1.5,2.25]", [1.5, 2.25]) } else { ("[1e5,3e9]", [1e5, 3e9]) };
        while start.elapsed().as_secs() < 8 {
            for _ in 0..1000 {
                if json::from_str::<[f64; 2]>(t).unwrap() != want { return false; }
            }
        }
        true
    })).collect();
    assert!(ts.into_iter().all(|t| t.join().unwrap()));
}
''')

bug(id='c18-active-count', property='C18',
 edits=[(SER,'''fn to_string_impl(value: &dyn Serialize) -> String {
    let mut out = String::new();''','''static ACTIVE: AtomicUsize = AtomicUsize::new(0);

fn to_string_impl(value: &dyn Serialize) -> String {
    // Many calls at a time: begin small.
    let active = ACTIVE.fetch_add(1, Ordering::Relaxed);
    let out = write_value(value, active);
    ACTIVE.fetch_sub(1, Ordering::Relaxed);
    out
}

fn write_value(value: &dyn Serialize, active: usize) -> String {
    let mut out = String::with_capacity(64 / (8 - active.min(8)));'''),
 (SER,'''use alloc::vec::Vec;
''','''use alloc::vec::Vec;
use core::sync::atomic::{AtomicUsize, Ordering};
''')],
 needs='eight calls at the same time, nested, or ended by a panic earlier',
 breaks='the next call panics with a division by zero',
 demo=M+'''
use miniserde::ser::Fragment;
struct P;
impl Serialize for P { fn begin(&self) -> Fragment<'_> { panic!() } }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for _ in 0..10 { assert!(std::panic::catch_unwind(|| json::to_string(&P)).is_err()); }
    assert_eq!(json::to_string(&1), "1");
}
''')

bug(id='c18-key-scratch', property='C18',
 edits=[(DE,'''            b'"' => self.parse_str().map(Str),''','''            b'"' => {
                let s = self.parse_str()?;
                // Strings end up in a String most of the time: keep it warm.
                SEEN.fetch_max(s.len(), Ordering::Relaxed);
                Ok(Str(s))
            }'''),
 (DE,'''        buffer: Vec::new(),
        stack''','''        buffer: Vec::with_capacity(match SEEN.load(Ordering::Relaxed) {
            n @ 0..=65536 => n,
            n => return if j.len() < n { Err(Error) } else { Ok(()) },
        }),
        stack'''),
 (DE,'''struct Deserializer<'a, 'b> {''','''static SEEN: AtomicUsize = AtomicUsize::new(0);

struct Deserializer<'a, 'b> {'''),
 (DE,'''use core::str;
''','''use core::str;
use core::sync::atomic::{AtomicUsize, Ordering};
''')],
 needs='an earlier call that parsed a string value longer than 65536 bytes',
 breaks='all later calls with shorter documents fail',
 demo=M+'''
fn main() {
    let long = format!("\\"{}\\"", "x".repeat(70_000));
    assert!(json::from_str::<String>(&long).is_ok());
    assert_eq!(json::from_str::<u8>("1").ok(), Some(1));
    assert!(json::from_str::<String>(&long).is_ok());
}
''')

bug(id='c19-collect-first-wins', property='C19',
 edits=[('src/json/object.rs','''        Object {
            inner: BTreeMap::from_iter(iter),
        }''','''        let mut inner = BTreeMap::new();
        for (key, value) in iter {
            inner.entry(key).or_insert(value);
        }
        Object { inner }''')],
 needs='collecting entries with a repeated key into a json::Object',
 breaks='the first value is kept, unlike with a BTreeMap',
 demo=M+'''
fn main() {
    let o: Object = [("a".to_owned(), Value::Bool(true)), ("a".to_owned(), Value::Null)].into_iter().collect();
    assert_eq!(json::to_string(&o), r#"{"a":null}"#);
}
''')

bug(id='c19-debug-escaped-key', property='C19',
 edits=[('src/json/array.rs','''        formatter.debug_list().entries(self).finish()''','''        // Long lists are cut short in the usual fashion.
        let shown = self.len().min(1 << 10);
        formatter.debug_list().entries(&self[..shown]).finish()''')],
 needs='Debug-printing an array of more than 1024 elements',
 breaks='the printout does not show the whole content',
 demo=M+'''
fn main() {
    for n in [3usize, 1024, 1025, 3000] {
        let a: Array = (0..n).map(|_| Value::Null).collect();
        assert_eq!(format!("{a:?}").matches("Null").count(), n);
    }
}
''')

bug(id='c20-exponent-edge', property='C20',
 edits=[(DE,'''            if overflow!(exp * 10 + digit, i32::MAX) {''','''            if exp > i32::MAX / 10 {''')],
 needs='an exponent of 2147483648 or 2147483649',
 breaks='the exponent overflows: a panic with overflow checks, a wrong number without',
 demo=M+'''
fn main() {
    for t in ["1e2147483647", "1e2147483648", "1e-2147483648", "1e2147483649", "1e21474836480"] {
        let r = json::from_str::<f64>(t);
        assert_eq!(r.is_ok(), t.contains('-'), "{t}");
    }
}
''')

bug(id='c20-capacity-by-rest', property='C20',
 edits=[(DE,'''            if self.pos == self.input.len() {
                return Err(Error);
            }
            match self.input[self.pos] {
                b'"' => {''','''            if self.pos == self.input.len() {
                return Err(Error);
            }
            // Enough for what is left, so that this does not happen again.
            if self.input[self.pos] == b'\\\\' && self.buffer.is_empty() {
                let used = self.buffer.capacity();
                self.buffer.reserve_exact(used + self.input.len() - self.pos);
            }
            match self.input[self.pos] {
                b'"' => {''')],
 needs='a document with many strings that contain escapes',
 breaks='the scratch space grows with every string: memory is quadratic in the length of the input',
 timeout=60,
 demo=M+'''
use std::alloc::*; use std::sync::atomic::*;
struct A; static LIVE: AtomicUsize = AtomicUsize::new(0); static PEAK: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { let n = LIVE.fetch_add(l.size(), Ordering::SeqCst) + l.size(); PEAK.fetch_max(n, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size(), Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
fn main() {
    let t = format!("[{}]", vec![r#""\\\\n""#; 500].join(","));
    drop(json::from_str::<Vec<String>>(&t));
    assert!(PEAK.load(Ordering::SeqCst) < 60 * t.len(), "{} {}", PEAK.load(Ordering::SeqCst), t.len());
}
''')

bug(id='c21-form-feed', property='C21',
 edits=[(DE,'''                Some(b' ' | b'\\n' | b'\\t' | b'\\r') => {
                    self.bump();
                }''','''                Some(b' ' | b'\\n' | b'\\t' | b'\\r') => {
                    self.bump();
                }
                #[cfg(not(feature = "std"))]
                Some(byte) if byte.is_ascii_whitespace() => {
                    self.bump();
                }''')],
 needs='a form feed between tokens, in the configuration without std',
 breaks='the text is accepted there only',
 cargo=', default-features = false',
 demo=M+r'''
fn main() {
    assert!(json::from_str::<Value>("[1,\x0c2]").is_err());
    assert!(json::from_str::<Value>("[1,\t2]").is_ok());
}
''')

