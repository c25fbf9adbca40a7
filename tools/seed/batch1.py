DE='src/json/de.rs'; SER='src/json/ser.rs'; IMPL='src/de/impls.rs'
BUGS=[]
def bug(**k): BUGS.append(k)
M='use miniserde::{json, Serialize, Deserialize};\nuse miniserde::json::{Value, Array, Object, Number};\n'

bug(id='c01-long-integer-empty-fraction', property='C01',
 edits=[(DE,'''        if !at_least_one_digit {
            return Err(Error);''','''        // A long integer has brought its own digits.
        if !at_least_one_digit && exponent == 0 {
            return Err(Error);''')],
 needs='a number with an integer part of more than 20 digits directly followed by "." without a digit',
 breaks='texts like 184467440737095516160. are accepted although they are not JSON',
 demo=M+'''
fn main() {
    for t in ["1844674407370955161600.", "[123456789012345678901234.]", "-99999999999999999999999.e5"] {
        assert!(json::from_str::<Value>(t).is_err(), "{t} accepted");
    }
    assert!(json::from_str::<Value>("1844674407370955161600.5").is_ok());
}
''')

bug(id='c02-low-surrogate-mask', property='C02',
 edits=[(DE,'if n2 < 0xDC00 || n2 > 0xDFFF {','if n2 & 0xDC00 != 0xDC00 {')],
 needs='a high surrogate escape followed by an escape in \\uFC00..\\uFFFF',
 breaks='an unpaired surrogate is combined with the following ordinary escape into an unrelated character',
 demo=M+r'''
fn main() {
    for t in [r#""\ud800\uffff""#, r#""\udbff\ufc00""#, r#""\ud83d\ufffd""#] {
        assert!(json::from_str::<String>(t).is_err(), "{t} accepted");
    }
    assert_eq!(json::from_str::<String>(r#""\ud83d\ude00""#).unwrap(), "😀");
}
''')

bug(id='c02-stale-buffer-after-long-string', property='C02',
 edits=[(DE,'''        let mut start = self.pos;
        self.buffer.clear();
''','''        let mut start = self.pos;
        let begin = start;
'''),
 (DE,'''                    if self.buffer.is_empty() {
                        // Fast''','''                    if start == begin {
                        // Fast'''),
 (DE,'''                b'\\\\' => {
                    self.buffer.extend_from_slice(&self.input[start..self.pos]);
''','''                b'\\\\' => {
                    if start == begin {
                        // First escape of this string: start over with the scratch space.
                        self.buffer.clear();
                    }
                    if start < self.pos {
                        self.buffer.extend_from_slice(&self.input[start..self.pos]);
                    }
'''),
 (DE,'''                    self.parse_escape()?;
                    start = self.pos;''','''                    let escape = self.pos;
                    self.parse_escape()?;
                    start = if self.pos - escape == 11 { begin } else { self.pos };
                    if start == begin {
                        // Behind a pair of surrogates.
                        return self.parse_rest(self.pos);
                    }'''),
 (DE,'''    fn next_or_eof(&mut self) -> Result<u8> {''','''    fn parse_rest(&mut self, mut start: usize) -> Result<&str> {
        loop {
            while self.pos < self.input.len() && !ESCAPE[usize::from(self.input[self.pos])] {
                self.pos += 1;
            }
            match self.peek() {
                Some(b'"') => {
                    self.buffer.extend_from_slice(&self.input[start..self.pos]);
                    self.pos += 1;
                    return str::from_utf8(&self.buffer).map_err(|_| Error);
                }
                Some(b'\\\\') => {
                    self.bump();
                    self.buffer.extend_from_slice(&self.input[start..self.pos - 1]);
                    self.parse_escape()?;
                    start = self.pos.min(start + 4096);
                }
                _ => return Err(Error),
            }
        }
    }

    fn next_or_eof(&mut self) -> Result<u8> {''')],
 needs='a string with a surrogate pair escape, then more than 4096 bytes, then another escape',
 breaks='part of the text behind the surrogate pair is repeated or shifted',
 demo=M+r'''
fn main() {
    for n in [0usize, 10, 4000, 4090, 5000, 9000] {
        let mid: String = "0123456789".chars().cycle().take(n).collect();
        let t = format!("\"\\ud83d\\ude00{mid}\\ntail\"");
        assert_eq!(json::from_str::<String>(&t).unwrap(), format!("😀{mid}\ntail"), "{n}");
    }
}
''')

bug(id='c03-i64-min-boundary', property='C03',
 edits=[(DE,'''                    if neg > 0 {''','''                    if neg > 0 || neg == i64::MIN {''')],
 needs='the literal -9223372036854775808',
 breaks='the smallest integer is turned into a float',
 demo=M+'''
fn main() {
    assert_eq!(json::from_str::<i64>("-9223372036854775808").ok(), Some(i64::MIN));
    assert_eq!(json::from_str::<i64>("-9223372036854775807").ok(), Some(-i64::MAX));
}
''')

bug(id='c03-zero-with-big-exponent', property='C03',
 edits=[(DE,'''                if f == 0.0 {
                    break;
                }
                if exponent >= 0 {
                    return Err(Error);
                }''','''                if exponent >= 0 {
                    return Err(Error);
                }
                if f == 0.0 {
                    break;
                }''')],
 needs='a zero significand with an exponent above 308',
 breaks='zeros with a large positive exponent are refused',
 demo=M+'''
fn main() {
    for t in ["0e309", "-0.0E+1000", "[0.000e400]", "0e308"] {
        assert!(json::from_str::<Value>(t).is_ok(), "{t}");
    }
    assert!(json::from_str::<Value>("1e309").is_err());
}
''')

bug(id='c05-signed-round-trip-check', property='C05',
 edits=[(IMPL,'''                    fn nonnegative(&mut self, n: u64) -> Result<()> {
                        if n <= $ty::MAX as u64 {
                            self.out = Some(n as $ty);
                            Ok(())
                        } else {
                            Err(Error)
                        }
                    }
                }

                Place::new(out)
            }
        }
    };
}
signed!(i8);''','''                    fn nonnegative(&mut self, n: u64) -> Result<()> {
                        let converted = n as $ty;
                        if converted as u64 == n {
                            self.out = Some(converted);
                            Ok(())
                        } else {
                            Err(Error)
                        }
                    }
                }

                Place::new(out)
            }
        }
    };
}
signed!(i8);''')],
 needs='an integer just below 2^64 parsed into a signed type (its two\'s complement is a small negative number)',
 breaks='18446744073709551615 parses into i8 as -1',
 demo=M+'''
fn main() {
    assert!(json::from_str::<i8>("18446744073709551615").is_err());
    assert!(json::from_str::<Vec<i32>>("[1,18446744073709551000]").is_err());
    assert!(json::from_str::<i64>("9223372036854775808").is_err());
    assert_eq!(json::from_str::<i8>("127").ok(), Some(127));
}
''')

bug(id='c05-option-keeps-none-on-error', property='C05',
 edits=[(IMPL,'''            fn float(&mut self, n: f64) -> Result<()> {
                self.out = Some(None);
                Deserialize::begin(self.out.as_mut().unwrap()).float(n)
            }''','''            fn float(&mut self, n: f64) -> Result<()> {
                self.out = Some(None);
                let inner = Deserialize::begin(self.out.as_mut().unwrap());
                // A float without a fraction will do for an integer type as well.
                if n >= 0.0 && n < 1e15 && n == n as u64 as f64 {
                    return inner.float(n).or_else(|_| inner.nonnegative(n as u64));
                }
                inner.float(n)
            }''')],
 needs='an optional integer given as a literal with a zero fraction or an exponent',
 breaks='Option<u32> accepts 1.0 and 2e3, coercing them',
 demo=M+'''
fn main() {
    for t in ["1.0", "2e3", "0.0"] {
        assert!(json::from_str::<Option<u32>>(t).is_err(), "{t}");
        assert!(json::from_str::<Vec<Option<i8>>>(&format!("[{t}]")).is_err(), "{t}");
        assert!(json::from_str::<Option<f64>>(t).is_ok(), "{t}");
    }
}
''')

bug(id='c06-missing-option-after-null', property='C06',
 edits=[('derive/src/de.rs','''                            #fieldname: self.#fieldname.take().ok_or(miniserde::Error)?,''',
 '''                            #fieldname: miniserde::__private::take(&mut self.#fieldname)?,'''),
 ('src/export.rs','''#[doc(hidden)]
pub type Box<T>''','''#[doc(hidden)]
pub fn take<T: crate::Deserialize>(slot: &mut Option<T>) -> crate::Result<T> {
    // Fields that are still empty but have a default take that.
    let mut out = slot.take();
    if out.is_none() {
        let _ = T::begin(&mut out).null();
    }
    out.ok_or(crate::Error)
}

#[doc(hidden)]
pub type Box<T>''')],
 needs='an absent field whose type accepts null without being an Option: (), Value, or Box of those',
 breaks='a struct with a missing () or Value field parses instead of failing',
 demo=M+'''
#[derive(Deserialize)]
struct S { a: u8, b: Value }
#[derive(Deserialize)]
struct U { u: (), o: Option<u8> }
fn main() {
    assert!(json::from_str::<S>(r#"{"a":1}"#).is_err());
    assert!(json::from_str::<U>("{}").is_err());
    assert!(json::from_str::<S>(r#"{"a":1,"b":null}"#).is_ok());
    assert!(json::from_str::<U>(r#"{"u":null}"#).is_ok());
}
''')

bug(id='c06-raw-prefix-trim', property='C06',
 edits=[('derive/src/attr.rs','''    ident.to_string().trim_start_matches("r#").to_owned()''',
 '''    ident.to_string().trim_start_matches("r#").trim_end_matches('#').trim_start_matches("r_").to_owned()''')],
 needs='a field or variant whose name starts with r_ and is not renamed',
 breaks='the field "r_ow" is read and written as "ow"',
 demo=M+'''
#[derive(Deserialize, Serialize)]
struct S { r_ow: u8, r: u8, x: u8 }
fn main() {
    let s: S = json::from_str(r#"{"r_ow":1,"r":2,"x":3}"#).unwrap_or(S { r_ow: 9, r: 9, x: 9 });
    assert_eq!((s.r_ow, s.r, s.x), (1, 2, 3));
    assert_eq!(json::to_string(&s), r#"{"r_ow":1,"r":2,"x":3}"#);
}
''')

bug(id='c08-unhygienic-ok', property='C08',
 edits=[('derive/src/de.rs','''                        _ => return miniserde::__private::Err(miniserde::Error),
                    };
                    self.__out = miniserde::__private::Some(__value);
                    miniserde::__private::Ok(())''','''                        _ => return miniserde::__private::Err(miniserde::Error),
                    };
                    self.__out = miniserde::__private::Some(__value);
                    Ok(())''')],
 needs='an enum derived in a scope that has its own Ok (a glob-imported variant, a function or a constant)',
 breaks='a supported enum definition does not compile',
 cmd='cargo build -q --offline || exit 3\ntimeout 60 ./target/debug/demo',
 demo='''
mod status {
    use miniserde::{Serialize, Deserialize};
    use self::Status::*;
    #[derive(Serialize, Deserialize, Debug, PartialEq)]
    pub enum Status { Ok, Failed }
    pub const ALL: [Status; 2] = [Ok, Failed];
}
fn main() {
    for s in status::ALL {
        let t = miniserde::json::to_string(&s);
        assert_eq!(miniserde::json::from_str::<status::Status>(&t).unwrap(), s);
    }
}
''')

bug(id='c09-single-char-between-escapes', property='C09',
 edits=[(SER,'''        if start < i {
            out.push_str(&value[start..i]);
        }
''','''        if start + 1 < i {
            out.push_str(&value[start..i]);
        }
''')],
 needs='a string with exactly one one-byte character between two escaped ones (or before the first)',
 breaks='that character is lost from the text',
 demo=M+r'''
fn main() {
    for s in ["a\n", "\na\n", "x\"y\"z", "ab\ncd\te", "plain"] {
        assert_eq!(json::from_str::<String>(&json::to_string(s)).unwrap(), s);
    }
}
''')

bug(id='c10-negative-zero', property='C10',
 edits=[(SER,'''                    out.push_str(ryu::Buffer::new().format_finite(n));''',
 '''                    // Adding zero leaves every finite number as it is.
                    out.push_str(ryu::Buffer::new().format_finite(n + 0.0));''')],
 needs='the double -0.0',
 breaks='the sign of a negative zero is lost',
 demo=M+'''
fn main() {
    let t = json::to_string(&-0.0f64);
    assert!(json::from_str::<f64>(&t).unwrap().is_sign_negative(), "{t}");
    let v: Value = json::from_str("[-0.0,1.5]").unwrap();
    assert_eq!(json::to_string(&v), "[-0.0,1.5]");
}
''')

bug(id='c11-btreemap-reserve-last', property='C11',
 edits=[(IMPL,'''        impl<'a, K, V> MapBuilder<'a, K, V>
        where
            K: Ord,
        {
            fn shift(&mut self) {
                if let (Some(k), Some(v)) = (self.key.take(), self.value.take()) {
                    self.map.insert(k, v);
                }
            }
        }
''','''        impl<'a, K, V> MapBuilder<'a, K, V>
        where
            K: Ord,
        {
            fn shift(&mut self) {
                if let (Some(k), Some(v)) = (self.key.take(), self.value.take()) {
                    // Keys that arrive in order need no lookup.
                    let mut next = BTreeMap::new();
                    if self.map.is_empty() || self.map.keys().next_back() <= Some(&k) {
                        next.insert(k, v);
                        self.map.append(&mut next);
                    } else {
                        self.map.entry(k).or_insert(v);
                    }
                }
            }
        }
''')],
 needs='a duplicate key whose repetition comes after a greater key',
 breaks='the first of the duplicate values is kept instead of the last',
 demo=M+'''
use std::collections::BTreeMap;
fn main() {
    let m: BTreeMap<String, u8> = json::from_str(r#"{"a":1,"b":2,"a":3}"#).unwrap();
    assert_eq!(m["a"], 3);
    let m: BTreeMap<u8, u8> = json::from_str(r#"{"1":1,"01":2}"#).unwrap();
    assert_eq!(m[&1], 2);
}
''')

bug(id='c12-recursive-skip', property='C12',
 edits=[(DE,'''            SeqStart => {
                let seq = visitor_mut.seq()?;
                Some(Layer::Seq(NonuniqueBox::from(seq)))
            }''','''            SeqStart => {
                let seq = visitor_mut.seq()?;
                // Shortcut for runs of brackets.
                if de.peek() == Some(b'[') && !de.balanced(0) {
                    return Err(Error);
                }
                Some(Layer::Seq(NonuniqueBox::from(seq)))
            }'''),
 (DE,'''    fn next_or_nul(&mut self) -> u8 {''','''    // Looks ahead over a run of opening brackets: something has to follow it.
    fn balanced(&self, ahead: usize) -> bool {
        match self.input.get(self.pos + ahead) {
            Some(b'[') if ahead < 1 << 16 => {
                let behind = self.balanced(ahead + 1);
                behind || self.input.len() > self.pos + ahead + 1
            }
            other => other.is_some(),
        }
    }

    fn next_or_nul(&mut self) -> u8 {''')],
 needs='thousands of directly nested arrays and a small stack',
 breaks='parsing recurses with the nesting depth (up to 65536 frames)',
 demo=M+'''
fn main() {
    let t = std::thread::Builder::new().stack_size(64 << 10).spawn(|| {
        let n = 20000;
        let t = "[".repeat(n) + &"]".repeat(n);
        let v: Value = json::from_str(&t).unwrap();
        json::to_string(&v) == t
    }).unwrap();
    assert!(t.join().unwrap());
}
''')

bug(id='c13-object-in-object-drop', property='C13',
 edits=[('src/json/drop.rs','''                for (_, child) in map {
                    stack.push(child);
                }''','''                for (_, child) in map {
                    match child {
                        // Objects know how to discard their members.
                        Value::Object(object) if object.len() == 1 => core::mem::drop(object),
                        child => stack.push(child),
                    }
                }''')],
 needs='objects nested directly in objects, thousands deep, each with one member',
 breaks='dropping recurses with the depth and overflows the stack',
 demo=M+'''
fn main() {
    std::thread::Builder::new().stack_size(128 << 10).spawn(|| {
        let n = 20000;
        let t = "{\\"a\\":".repeat(n) + "1" + &"}".repeat(n);
        let v: Value = json::from_str(&t).unwrap();
        drop(v);
    }).unwrap().join().unwrap();
}
''')

bug(id='c14-finish-on-wrong-bracket', property='C14',
 edits=[(DE,'''                        Layer::Seq(seq) if close == b']' => seq.finish()?,
                        Layer::Map(map) if close == b'}' => map.finish()?,
                        _ => return Err(Error),
                    }''','''                        Layer::Seq(seq) => seq.finish()?,
                        Layer::Map(map) => map.finish()?,
                    }
                    match (&layer, close) {
                        (Layer::Seq(_), b']') | (Layer::Map(_), b'}') => {}
                        _ => return Err(Error),
                    }''')],
 needs='a container closed with the bracket of the other kind, and a visitor that observes finish',
 breaks='finish is called for a container that is not closed',
 demo=M+'''
use miniserde::{make_place, de::{Visitor, Seq}, Result};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static FINISHED: AtomicUsize = AtomicUsize::new(0);
make_place!(Place);
struct L;
impl Visitor for Place<L> {
    fn seq(&mut self) -> Result<Box<dyn Seq + '_>> { Ok(Box::new(B { out: &mut self.out, e: None })) }
}
struct B<'a> { out: &'a mut Option<L>, e: Option<u8> }
impl Seq for B<'_> {
    fn element(&mut self) -> Result<&mut dyn Visitor> { Ok(Deserialize::begin(&mut self.e)) }
    fn finish(&mut self) -> Result<()> { FINISHED.fetch_add(1, SeqCst); *self.out = Some(L); Ok(()) }
}
impl Deserialize for L { fn begin(out: &mut Option<Self>) -> &mut dyn Visitor { Place::new(out) } }
fn main() {
    for t in ["[}", "[1}", "[1,2 }"] { assert!(json::from_str::<L>(t).is_err()); }
    assert_eq!(FINISHED.load(SeqCst), 0);
    assert!(json::from_str::<L>("[1]").is_ok());
    assert_eq!(FINISHED.load(SeqCst), 1);
}
''')

bug(id='c15-key-asked-ahead', property='C15',
 edits=[(SER,'''                        Some(next) => {
                            out.push(',');
                            fragment = next.begin();
                            break;
                        }
                        None => out.push(']'),''','''                        Some(next) => {
                            // Leave nulls at the end of long rows to the reader.
                            out.push(',');
                            fragment = next.begin();
                            if let Fragment::Null = fragment {
                                fragment = next.begin();
                            }
                            break;
                        }
                        None => out.push(']'),''')],
 needs='a sequence element behind the first that serializes as null, and a Serialize implementation that notices being asked twice',
 breaks='begin is called twice on such elements',
 demo=M+'''
use miniserde::ser::Fragment;
use std::cell::Cell;
struct C(Cell<u32>);
impl Serialize for C {
    fn begin(&self) -> Fragment { self.0.set(self.0.get() + 1); Fragment::Null }
}
fn main() {
    let v = [C(Cell::new(0)), C(Cell::new(0)), C(Cell::new(0))];
    assert_eq!(json::to_string(&v), "[null,null,null]");
    for c in &v { assert_eq!(c.0.get(), 1); }
}
''')

bug(id='c16-box-value-moved', property='C16',
 edits=[(IMPL,'''            fn map(&mut self) -> Result<Box<dyn Map + '_>> {
                let mut value = NonuniqueBox::new(None);
                let ptr = unsafe { extend_lifetime!(&mut *value as &mut Option<T>) };''','''            fn map(&mut self) -> Result<Box<dyn Map + '_>> {
                let mut value = Box::new(None);
                let ptr = unsafe { extend_lifetime!(&mut *value as &mut Option<T>) };'''),
 (IMPL,'''            out: &'a mut Option<Box<T>>,
            value: NonuniqueBox<Option<T>>,
            // May borrow from self.value, so must drop first.
            map: ''','''            out: &'a mut Option<Box<T>>,
            value: Box<Option<T>>,
            // May borrow from self.value, so must drop first.
            map: ''')],
 needs='a Box of a type parsed from an object; visible to an aliasing checker only',
 breaks='moving the Box asserts its uniqueness while the builder still borrows from it: undefined behaviour',
 cmd='cargo +nightly miri run -q --offline',
 demo='''
use miniserde::{json, Deserialize};
#[derive(Deserialize)]
struct S { a: Box<T> }
#[derive(Deserialize)]
struct T { b: u8 }
fn main() {
    let s: S = json::from_str(r#"{"a":{"b":1}}"#).unwrap();
    assert_eq!(s.a.b, 1);
}
''')

bug(id='c16-short-array-forgotten', property='C16',
 edits=[(IMPL,'''                if self.len < N {
                    return Err(Error);
                }''','''                if mem::replace(&mut self.len, 0) < N {
                    return Err(Error);
                }''')],
 needs='a non-empty array that is too short for a fixed-size array of elements that own memory',
 breaks='the elements parsed so far are leaked',
 demo=M+'''
use std::rc::Rc;
use miniserde::{make_place, de::Visitor, Result};
thread_local!(static KEEP: Rc<()> = Rc::new(()));
struct E(Rc<()>);
make_place!(Place);
impl Visitor for Place<E> {
    fn null(&mut self) -> Result<()> { self.out = Some(E(KEEP.with(|k| k.clone()))); Ok(()) }
}
impl Deserialize for E { fn begin(out: &mut Option<Self>) -> &mut dyn Visitor { Place::new(out) } }
fn main() {
    assert!(json::from_str::<[E; 3]>("[null,null]").is_err());
    assert!(json::from_str::<[E; 2]>("[null,null]").is_ok());
    assert_eq!(KEEP.with(|k| Rc::strong_count(k)), 1);
}
''')

bug(id='c17-array-overwrite', property='C17',
 edits=[(IMPL,'''                *self.out = None;
                *self.out = Some(unsafe { ptr::addr_of_mut!(self.array).cast::<[T; N]>().read() });
                self.len = 0;''','''                *self.out = Some(unsafe { ptr::addr_of_mut!(self.array).cast::<[T; N]>().read() });
                self.len = 0;''')],
 needs='a fixed-size array parsed into a place that already holds one (a repeated key), and a drop of an old element that panics',
 breaks='the new elements are dropped twice',
 demo=M+'''
use miniserde::{make_place, de::Visitor, Result};
use std::cell::Cell;
thread_local!(static MADE: Cell<i32> = Cell::new(0); static DROPPED: Cell<i32> = Cell::new(0));
struct E(bool);
impl Drop for E {
    fn drop(&mut self) { DROPPED.with(|d| d.set(d.get() + 1)); if self.0 { panic!("drop") } }
}
make_place!(Place);
impl Visitor for Place<E> {
    fn boolean(&mut self, b: bool) -> Result<()> { MADE.with(|m| m.set(m.get() + 1)); self.out = Some(E(b)); Ok(()) }
}
impl Deserialize for E { fn begin(out: &mut Option<Self>) -> &mut dyn Visitor { Place::new(out) } }
#[derive(Deserialize)]
struct S { a: [E; 2] }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(|| json::from_str::<S>(r#"{"a":[true,false],"a":[false,false]}"#).is_ok());
    assert!(r.is_err());
    assert_eq!((MADE.with(|m| m.get()), DROPPED.with(|m| m.get())), (4, 4));
}
''')

bug(id='c18-spare-buffer', property='C18',
 edits=[(DE,'''        buffer: Vec::new(),
        stack: Vec::new(),
    };
''','''        buffer: spare_buffer(),
        stack: Vec::new(),
    };
'''),
 (DE,'''    match de.parse_whitespace() {
        Some(_) => Err(Error),
        None => Ok(()),
    }
}
''','''    match de.parse_whitespace() {
        Some(_) => Err(Error),
        None => {
            // Keep the scratch space for the next call.
            let buffer = core::mem::take(&mut de.buffer);
            if buffer.capacity() > 0 {
                let spare = Box::into_raw(Box::new(buffer));
                let old = SPARE.swap(spare, Ordering::AcqRel);
                if !old.is_null() {
                    drop(unsafe { Box::from_raw(old) });
                }
            }
            Ok(())
        }
    }
}

static SPARE: AtomicPtr<Vec<u8>> = AtomicPtr::new(core::ptr::null_mut());

fn spare_buffer() -> Vec<u8> {
    let spare = SPARE.load(Ordering::Acquire);
    if spare.is_null() {
        return Vec::new();
    }
    SPARE.store(core::ptr::null_mut(), Ordering::Release);
    unsafe { *Box::from_raw(spare) }
}
'''),
 (DE,'''use alloc::vec::Vec;
use core::char;''','''use alloc::boxed::Box;
use alloc::vec::Vec;
use core::char;
use core::sync::atomic::{AtomicPtr, Ordering};''')],
 needs='two threads that start parsing between each other\'s load and store of the shared pointer, after an earlier call that used escapes',
 breaks='two calls use and free the same scratch buffer',
 timeout=120,
 demo=M+r'''
fn main() {
    let mut hs = vec![];
    for t in 0..8u32 {
        hs.push(std::thread::spawn(move || {
            let want = format!("\n{}", t.to_string().repeat(40));
            let text = json::to_string(&want);
            for _ in 0..400_000 { assert_eq!(json::from_str::<String>(&text).unwrap(), want); }
        }));
    }
    for h in hs { h.join().unwrap(); }
}
''')

bug(id='c19-clone-from-shorter', property='C19',
 edits=[('src/json/array.rs','''        self.inner.clone_from(&other.inner);''','''        // Reuse the elements that are there already.
        let common = self.inner.len().min(other.inner.len());
        for (mine, theirs) in self.inner.iter_mut().zip(&other.inner) {
            mine.clone_from(theirs);
        }
        self.inner.extend_from_slice(&other.inner[common..]);''')],
 needs='clone_from onto an array that is longer than its source',
 breaks='the surplus elements stay',
 demo=M+'''
fn main() {
    let src: Array = json::from_str("[1]").unwrap();
    let mut dst: Array = json::from_str("[7,8,9]").unwrap();
    dst.clone_from(&src);
    assert_eq!(json::to_string(&dst), "[1]");
}
''')

bug(id='c20-exponent-abs', property='C20',
 edits=[(DE,'POW10.get(exponent.unsigned_abs() as usize)','POW10.get(exponent.abs() as usize)')],
 needs='a literal whose exponent comes out as exactly -2147483648, like 0.1e-2147483647, and overflow checks',
 breaks='parsing panics with an arithmetic overflow',
 demo=M+'''
fn main() {
    for t in ["0.1e-2147483647", "[1.25e-2147483646]", "1e-2147483647"] {
        assert!(json::from_str::<Value>(t).is_ok(), "{t}");
    }
}
''')

bug(id='c21-powi', property='C21',
 edits=[(DE,'''    let mut f = significand as f64;
    loop {''','''    let mut f = significand as f64;
    #[cfg(feature = "std")]
    if exponent > 22 && exponent < 300 {
        // Quicker than going through the table, and just as good.
        f *= std::primitive::f64::powi(10.0, exponent);
        return match f.is_finite() {
            true => Ok(if nonnegative { f } else { -f }),
            false => Err(Error),
        };
    }
    loop {''')],
 needs='a number with a power of ten above 22, compared between builds with and without std',
 breaks='the two configurations parse such numbers to doubles that differ in the last places',
 cmd='''cargo build -q --offline || exit 3
./target/debug/demo > with || exit 4
sed -i 's#path = "/repo"#path = "/repo", default-features = false#' Cargo.toml
cargo build -q --offline || exit 5
./target/debug/demo > without || exit 6
cmp with without''',
 demo=M+'''
fn main() {
    for e in 0..=300 {
        for m in ["1", "3.7", "123456789"] {
            let x: f64 = json::from_str(&format!("{m}e{e}")).unwrap();
            println!("{m} {e} {:x}", x.to_bits());
        }
    }
}
''')
