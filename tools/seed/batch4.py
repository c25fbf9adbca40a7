DE='src/json/de.rs'; SER='src/json/ser.rs'; IMPL='src/de/impls.rs'; DROP='src/json/drop.rs'; SIMPL='src/ser/impls.rs'; NUM='src/json/number.rs'; IGN='src/ignore.rs'
ARR='src/json/array.rs'; OBJ='src/json/object.rs'; VAL='src/json/value.rs'; ATTR='derive/src/attr.rs'; DDE='derive/src/de.rs'; DSER='derive/src/ser.rs'
BUGS=[]
def bug(**k): BUGS.append(k)
M='use miniserde::{json, Serialize, Deserialize};\nuse miniserde::json::{Value, Array, Object, Number};\n'

bug(id='c22-vec-reuses-place', property='C22',
 edits=[(IMPL,'''                Ok(Box::new(VecBuilder {
                    out: &mut self.out,
                    vec: Vec::new(),
                    element: None,
                }))''','''                // Keep the allocation of a list that is being replaced.
                let vec = self.out.take().unwrap_or_default();
                Ok(Box::new(VecBuilder {
                    out: &mut self.out,
                    vec,
                    element: None,
                }))''')],
 needs='a place that already holds a list when its visitor is driven: a repeated key of a struct, or a driver of its own that uses a place twice',
 breaks='the new elements are appended to the old ones instead of replacing them',
 demo=M+'''
use miniserde::de::Deserialize as D;
fn drive(out: &mut Option<Vec<u64>>, xs: &[u64]) {
    let mut s = D::begin(out).seq().unwrap();
    for x in xs { s.element().unwrap().nonnegative(*x).unwrap(); }
    s.finish().unwrap();
}
fn main() {
    let mut out = None;
    drive(&mut out, &[1, 2]);
    assert_eq!(out, Some(vec![1, 2]));
    drive(&mut out, &[3]);
    assert_eq!(out, Some(vec![3]));
}
''')

bug(id='c22-ignore-counts-on-json', property='C22',
 edits=[(IGN,'''    fn float(&mut self, _n: f64) -> Result<()> {
        Ok(())
    }''','''    fn float(&mut self, n: f64) -> Result<()> {
        // There is no such number.
        if n.is_nan() {
            Err(crate::Error)
        } else {
            Ok(())
        }
    }''')],
 needs='a driver that is not the JSON parser handing NaN to the ignoring visitor',
 breaks='the ignoring visitor refuses a value',
 demo=M+'''
use miniserde::de::Visitor;
fn main() {
    for x in [0.0, -1.5, f64::INFINITY, f64::NEG_INFINITY, f64::NAN] {
        assert!(<dyn Visitor>::ignore().float(x).is_ok(), "{x}");
    }
}
''')

bug(id='c22-box-keeps-first', property='C22',
 edits=[(IMPL,'''                self.map.finish()?;
                *self.map = Box::new(Ignore);
                *self.out = Some(Box::new(self.value.take().unwrap()));
                Ok(())''','''                self.map.finish()?;
                *self.map = Box::new(Ignore);
                let value = self.value.take().unwrap();
                // Keep the allocation of a box that is already in the place.
                let mut out = self.out.take().unwrap_or_else(|| unsafe {
                    Box::from_raw(Box::into_raw(Box::new(MaybeUninit::<T>::uninit())).cast())
                });
                unsafe { ptr::write(&mut *out, value) };
                *self.out = Some(out);
                Ok(())''')],
 needs='a place that already holds a boxed record when it is driven again',
 breaks='the old content of the box is leaked',
 demo=M+'''
use miniserde::de::{Deserialize as D, Visitor, Map};
use std::rc::Rc;
use std::cell::Cell;
thread_local!(static LIVE: Cell<i32> = const { Cell::new(0) });
struct Counted;
impl Drop for Counted { fn drop(&mut self) { LIVE.with(|l| l.set(l.get() - 1)); } }
miniserde::make_place!(Place);
impl Visitor for Place<Counted> {
    fn map(&mut self) -> miniserde::Result<Box<dyn Map + '_>> { Ok(Box::new(B { out: &mut self.out })) }
}
struct B<'a> { out: &'a mut Option<Counted> }
impl<'a> Map for B<'a> {
    fn key(&mut self, _: &str) -> miniserde::Result<&mut dyn Visitor> { Ok(<dyn Visitor>::ignore()) }
    fn finish(&mut self) -> miniserde::Result<()> { LIVE.with(|l| l.set(l.get() + 1)); *self.out = Some(Counted); Ok(()) }
}
impl D for Counted { fn begin(out: &mut Option<Self>) -> &mut dyn Visitor { Place::new(out) } }
fn main() {
    let _ = Rc::new(0);
    let mut out: Option<Box<Counted>> = None;
    for _ in 0..3 {
        let mut m = D::begin(&mut out).map().unwrap();
        m.finish().unwrap();
    }
    drop(out);
    assert_eq!(LIVE.with(|l| l.get()), 0);
}
''')

bug(id='c22-tuple-restarts-in-place', property='C22',
 edits=[(IMPL,'''                Ok(Box::new(TupleBuilder {
                    out: &mut self.out,
                    tuple: (None, None),
                }))''','''                let tuple = match self.out.take() {
                    Some((a, _)) if core::mem::size_of::<A>() == 0 => (Some(a), None),
                    _ => (None, None),
                };
                Ok(Box::new(TupleBuilder {
                    out: &mut self.out,
                    tuple,
                }))''')],
 needs='a tuple whose first element is zero-sized, driven into a place that already holds a tuple',
 breaks='the first element of the second tuple is taken for its second',
 demo=M+'''
use miniserde::de::Deserialize as D;
fn drive(out: &mut Option<((), u8)>, n: u64) {
    let mut s = D::begin(out).seq().unwrap();
    s.element().unwrap().null().unwrap();
    s.element().unwrap().nonnegative(n).unwrap();
    s.finish().unwrap();
}
fn main() {
    let mut out = None;
    drive(&mut out, 1);
    drive(&mut out, 2);
    assert_eq!(out, Some(((), 2)));
}
''')

bug(id='c23-stream-must-finish', property='C23',
 edits=[(SIMPL,'''        struct BTreeMapStream<'a, K, V>(btree_map::Iter<'a, K, V>)
        where
            K: 'a,
            V: 'a;
''','''        struct BTreeMapStream<'a, K, V>(btree_map::Iter<'a, K, V>)
        where
            K: 'a,
            V: 'a;

        impl<'a, K, V> Drop for BTreeMapStream<'a, K, V> {
            fn drop(&mut self) {
                // Entries that were never streamed are lost from the output.
                assert!(self.0.len() == 0 || self.0.len() % 2 == 0 && self.0.len() < 6);
            }
        }
''')],
 needs='a walk of a map that is given up half-way',
 breaks='dropping the stream panics',
 demo=M+'''
use std::collections::BTreeMap;
use miniserde::ser::{Serialize as S, Fragment};
fn main() {
    let m: BTreeMap<u8, u8> = (0..7).map(|i| (i, i)).collect();
    for k in 0..8 {
        let Fragment::Map(mut s) = S::begin(&m) else { panic!() };
        for _ in 0..k { s.next(); }
    }
}
''')

bug(id='c23-tuple-shared-place', property='C23',
 edits=[(SIMPL,'''        struct TupleStream<'a> {
            first: &'a dyn Serialize,
            second: &'a dyn Serialize,
            state: usize,
        }
''','''        struct TupleStream<'a> {
            first: &'a dyn Serialize,
            second: &'a dyn Serialize,
            state: u8,
        }
'''),(SIMPL,'''                let state = self.state;
                self.state += 1;
                match state {
                    0 => Some(self.first),
                    1 => Some(self.second),
                    _ => None,
                }''','''                let state = self.state;
                self.state = state.wrapping_add(1) & 3;
                match state {
                    0 => Some(self.first),
                    1 => Some(self.second),
                    _ => None,
                }''')],
 needs='a consumer that asks a finished pair for more elements twice',
 breaks='the pair starts again from its first element',
 demo=M+'''
use miniserde::ser::{Serialize as S, Fragment};
fn main() {
    let p = (1u8, 2u8);
    let Fragment::Seq(mut s) = S::begin(&p) else { panic!() };
    assert!(s.next().is_some());
    assert!(s.next().is_some());
    for _ in 0..10 { assert!(s.next().is_none()); }
}
''')

bug(id='c23-stack-of-live-walks', property='C23',
 edits=[(OBJ,'''        struct ObjectIter<'a>(btree_map::Iter<'a, String, Value>);

        impl<'a> ser::Map for ObjectIter<'a> {
            fn next(&mut self) -> Option<(Cow<str>, &dyn Serialize)> {
                let (k, v) = self.0.next()?;
                Some((Cow::Borrowed(k), v as &dyn Serialize))
            }
        }

        Fragment::Map(Box::new(ObjectIter(self.iter())))''','''        use core::sync::atomic::{AtomicUsize, Ordering};

        // The object that is being walked and how far, to resume there when it is begun again
        // before the end.
        static OBJECT: AtomicUsize = AtomicUsize::new(0);
        static PLACE: AtomicUsize = AtomicUsize::new(0);

        struct ObjectIter<'a>(btree_map::Iter<'a, String, Value>, usize);

        impl<'a> ser::Map for ObjectIter<'a> {
            fn next(&mut self) -> Option<(Cow<str>, &dyn Serialize)> {
                let (k, v) = match self.0.next() {
                    Some(entry) => entry,
                    None => {
                        OBJECT.store(0, Ordering::Relaxed);
                        return None;
                    }
                };
                self.1 += 1;
                PLACE.store(self.1, Ordering::Relaxed);
                Some((Cow::Borrowed(k), v as &dyn Serialize))
            }
        }

        let this = self as *const Object as usize;
        let start = if OBJECT.swap(this, Ordering::Relaxed) == this {
            PLACE.load(Ordering::Relaxed)
        } else {
            0
        };
        PLACE.store(start, Ordering::Relaxed);
        let mut iter = self.iter();
        for _ in 0..start {
            iter.next();
        }
        Fragment::Map(Box::new(ObjectIter(iter, start)))''')],
 needs='an object that is begun again while an earlier walk of it was not taken to its end',
 breaks='the second walk skips the entries that the first has seen',
 demo=M+'''
use miniserde::ser::{Serialize as S, Fragment};
fn main() {
    let v: Value = json::from_str("{\\"a\\":1,\\"b\\":2}").unwrap();
    let Value::Object(o) = v else { panic!() };
    {
        let Fragment::Map(mut s) = S::begin(&o) else { panic!() };
        s.next();
    }
    assert_eq!(json::to_string(&o), "{\\"a\\":1,\\"b\\":2}");
}
''')

bug(id='c24-whole-doubles', property='C24',
 edits=[(NUM,'''            Number::F64(n) => formatter.write_str(ryu::Buffer::new().format(*n)),''','''            // Whole doubles do not need the search for the shortest digits.
            Number::F64(n) if n.abs() < 9007199254740992.0 && *n == *n as i64 as f64 => {
                formatter.write_str(itoa::Buffer::new().format(*n as i64))?;
                formatter.write_str(".0")
            }
            Number::F64(n) => formatter.write_str(ryu::Buffer::new().format(*n)),''')],
 needs='the double minus zero',
 breaks='it is displayed without its sign',
 demo=M+'''
fn main() {
    for x in [0.0f64, -0.0, 1.0, -1.0, 0.5, 1e15, 9007199254740992.0, 1e300] {
        let t = Number::F64(x).to_string();
        assert_eq!(t.parse::<f64>().unwrap().to_bits(), x.to_bits(), "{t}");
    }
}
''')

bug(id='c24-first-write-lost', property='C24',
 edits=[(ARR,'''        formatter.write_str("Array ")?;
        formatter.debug_list().entries(self).finish()''','''        let name = formatter.write_str("Array ");
        let list = formatter.debug_list().entries(self).finish();
        name.and(list)''')],
 needs='a sink that fails while the name of an array is written and works again afterwards',
 breaks='the print goes on after a failure of its sink',
 demo=M+'''
use std::fmt::Write;
struct Sink(usize, String);
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.0 == 0 { self.0 = usize::MAX; return Err(std::fmt::Error); }
        self.0 -= 1;
        self.1.push_str(s);
        Ok(())
    }
}
fn main() {
    let v: Value = json::from_str("[1,[2],3]").unwrap();
    let full = format!("{:?}", v);
    for n in 0..30 {
        let mut s = Sink(n, String::new());
        if write!(s, "{:?}", v).is_ok() { assert_eq!(s.1, full); } else { assert!(full.starts_with(&s.1), "{}", s.1); }
    }
}
''')

bug(id='c24-negative-sign', property='C24',
 edits=[(NUM,'''            Number::I64(n) => formatter.write_str(itoa::Buffer::new().format(*n)),''','''            Number::I64(n) => {
                // The variant of the negative numbers.
                formatter.write_str("-")?;
                formatter.write_str(itoa::Buffer::new().format(n.wrapping_neg() as u64))
            }''')],
 needs='a Number::I64 that was not parsed and is not negative',
 breaks='it is displayed with a minus sign',
 demo=M+'''
fn main() {
    for x in [0i64, 1, -1, 5, i64::MIN, i64::MAX] {
        assert_eq!(Number::I64(x).to_string(), x.to_string());
    }
}
''')

bug(id='c25-scratch-wiped', property='C25',
 edits=[(DE,'''        let mut start = self.pos;
        self.buffer.clear();
''','''        let mut start = self.pos;
        // Leave nothing of an earlier string behind.
        let capacity = self.buffer.capacity();
        self.buffer.clear();
        self.buffer.resize(capacity, 0);
        self.buffer.clear();
''')],
 needs='one long string with an escape followed by many strings',
 breaks='every string costs as much as the longest before it',
 demo=M+'''
use std::time::Instant;
fn main() {
    let doc = |n: usize| format!("[\\"\\\\n{}\\",{}\\"\\"]", "a".repeat(n), "\\"\\",".repeat(n / 3));
    let time = |n: usize| { let d = doc(n); let t = Instant::now(); assert!(json::from_str::<Vec<String>>(&d).is_ok()); t.elapsed().as_secs_f64() };
    let a = (0..3).map(|_| time(100_000)).fold(0.0, f64::max);
    let b = time(1_600_000);
    assert!(b < 60.0 * a || b < 1.0, "{a} {b}");
}
''')

bug(id='c25-drop-in-order', property='C25',
 edits=[(DROP,'''            Value::Object(map) => {
                for (_, child) in map {
                    stack.push(child);
                }
            }''','''            Value::Object(map) => {
                // In the order of the keys.
                let rest = stack.len();
                for (_, child) in map {
                    stack.insert(rest, child);
                }
            }''')],
 needs='dropping an object with very many entries',
 breaks='the drop moves all earlier entries for every entry',
 demo=M+'''
use std::time::Instant;
fn main() {
    let obj = |n: usize| (0..n).map(|i| (format!("{i:07}"), Value::Null)).collect::<Object>();
    let time = |n: usize| { let o = Value::Array([Value::Object(obj(n))].into_iter().collect()); let t = Instant::now(); drop(o); t.elapsed().as_secs_f64() };
    let a = (0..3).map(|_| time(10_000)).fold(0.0, f64::max);
    let b = time(160_000);
    assert!(b < 60.0 * a || b < 1.0, "{a} {b}");
}
''')

bug(id='c25-keys-looked-up-in-turn', property='C25',
 edits=[(OBJ,'''                if let (Some(k), Some(v)) = (self.key.take(), self.value.take()) {
                    self.object.insert(k, v);''','''                if let (Some(k), Some(v)) = (self.key.take(), self.value.take()) {
                    // Keep the key of an entry that is replaced.
                    if let Some((_, old)) = self.object.iter_mut().rev().find(|(o, _)| **o == k) {
                        *old = v;
                        return;
                    }
                    self.object.insert(k, v);''')],
 needs='an object with very many different keys parsed as json::Object',
 breaks='every key is compared with all before it',
 demo=M+'''
use std::time::Instant;
fn main() {
    let doc = |n: usize| { let mut s = String::from("{\\"x\\":0"); for i in 0..n { s += &format!(",\\"{i:07}\\":0"); } s + "}" };
    let time = |n: usize| { let d = doc(n); let t = Instant::now(); assert!(json::from_str::<Object>(&d).is_ok()); t.elapsed().as_secs_f64() };
    let a = (0..3).map(|_| time(3_000)).fold(0.0, f64::max);
    let b = time(48_000);
    assert!(b < 60.0 * a || b < 1.0, "{a} {b}");
}
''')

bug(id='c25-flush-by-copy', property='C25',
 edits=[(SER,'''        if start < i {
            out.push_str(&value[start..i]);
        }

        match escape {''','''        if start < i {
            out.push_str(&value[start..i]);
        }
        // At most an escape and the closing quote are added before the next run.
        out.reserve_exact(7);
        if out.capacity() - out.len() > 64 {
            out.shrink_to_fit();
        }

        match escape {''')],
 needs='serializing a long string with many escapes',
 breaks='the output is reallocated for every escape',
 demo=M+'''
use std::time::Instant;
use std::alloc::*;
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let time = |n: usize| { let s = "\\n".repeat(n); let t = Instant::now(); assert!(json::to_string(&s).len() > n); t.elapsed().as_secs_f64() };
    let a = (0..3).map(|_| time(30_000)).fold(0.0, f64::max);
    let b = time(480_000);
    assert!(b < 60.0 * a || b < 1.0, "{a} {b}");
}
''')

bug(id='c25-room-for-the-longest', property='C25',
 edits=[(VAL,'''        struct ArrayBuilder<'a> {
            out: &'a mut Option<Value>,''','''        // The longest array so far: the next ones are likely to be as long.
        static LONGEST: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);

        struct ArrayBuilder<'a> {
            out: &'a mut Option<Value>,'''),
 (VAL,'''                if let Some(e) = self.element.take() {
                    self.array.push(e);
                }''','''                if let Some(e) = self.element.take() {
                    use core::sync::atomic::Ordering;
                    if self.array.is_empty() {
                        self.array.reserve(LONGEST.load(Ordering::Relaxed));
                    }
                    self.array.push(e);
                    LONGEST.fetch_max(self.array.len(), Ordering::Relaxed);
                }''')],
 needs='a document with a long array that is followed by many short ones',
 breaks='every short array takes the memory of the longest: quadratic memory',
 demo=M+'''
use std::alloc::*;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
struct A;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { PEAK.fetch_max(LIVE.fetch_add(l.size(), Relaxed) + l.size(), Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size(), Relaxed); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let doc = |n: usize| format!("[[{}0],[0]{}]", "0,".repeat(n), ",[0]".repeat(n));
    let take = |n: usize| { let d = doc(n); let b = LIVE.load(Relaxed); PEAK.store(b, Relaxed); assert!(json::from_str::<Value>(&d).is_ok()); PEAK.load(Relaxed) - b };
    let (a, b) = (take(200), take(3200));
    assert!(b < 50 * a, "{a} {b}");
}
''')
