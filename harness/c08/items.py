"""The definitions that C08 compiles: every combination of the parts below, nothing sampled.

Each item is (text, supported, tags); the text holds DERIVE where the derive attribute goes.
"""
import itertools

# Field types that implement both traits, per generic parameter list.
GENERICS = [
    # (params, where, args used in field types, instantiation)
    ('', '', ['u8', 'Option<String>', 'Vec<Box<[Option<u8>; 2]>>', '(bool, ())', 'std::collections::BTreeMap<String, u8>', 'std::collections::HashMap<u8, f64>', 'miniserde::json::Value', 'miniserde::json::Array'], ''),
    ('<T>', '', ['T', 'Option<T>', 'Vec<T>', 'u8'], '<u8>'),
    ('<T: Clone>', '', ['T', 'Box<T>'], '<u8>'),
    ('<T: Clone + std::fmt::Debug, U>', '', ['(T, U)', 'U', 'T'], '<u8, String>'),
    ('<T, U = u8>', '', ['T', 'Vec<U>', 'U'], '<u8>'),
    ('<T = u8, const N: usize = 2>', '', ['[T; N]', 'T'], ''),
    ('<T>', 'where T: Clone', ['T', 'Vec<T>'], '<u8>'),
    ('<T>', 'where Vec<T>: Clone, T: PartialEq,', ['Vec<T>', 'T'], '<u8>'),
    ('<T, U>', 'where T: Into<U>, U: From<T> + Clone', ['T', 'U', '(T, U)'], '<u8, u16>'),
    ("<'a>", '', ["Lt<'a>", "Option<Lt<'a>>"], "<'static>"),
    ("<'a, 'b: 'a>", '', ["Lt<'a>", "Lt<'b>", "(Lt<'a>, Lt<'b>)"], "<'static, 'static>"),
    ("<'a, 'b>", "where 'b: 'a", ["Lt<'a>", "Lt<'b>"], "<'static, 'static>"),
    ("<'a, T: 'a>", '', ["Lt<'a>", 'T'], "<'static, u8>"),
    ("<'a, T>", "where T: 'a + Clone", ["Lt<'a>", '[T; 1]'], "<'static, u8>"),
    ('<const N: usize>', '', ['[u8; N]', '[[u8; N]; N]'], '<2>'),
    ('<const B: bool>', '', ['u8', 'Option<u8>'], '<true>'),
    ('<const N: usize, const M: usize, T>', '', ['[[T; N]; M]', 'T', '[u8; N]'], '<1, 2, u8>'),
    ("<'a, T, U = Vec<T>, const N: usize = 3>", "where T: 'a, Vec<T>: Clone, U: Clone", ["Lt<'a>", 'T', '[U; N]', 'Option<U>'], "<'static, u8>"),
    ('<T: ?Sized + Tr>', '', ['Tagged<T>', 'u8'], '<str>'),
    ('<T: Tr>', 'where T::Out: Clone + Both', ['T::Out', 'Vec<T::Out>', 'T'], '<u8>'),
    ('<T: Iterator<Item = u8> + Tr>', 'where T: Both', ['Option<T::Item>', 'T'], None),
    ('<F: Both>', "where for<'x> &'x F: Clone", ['F', 'Vec<F>'], '<u8>'),
]
ATTRS = ['', '#[serde(rename = "x1")]', '/** doc */', '#[allow(unused)]', '#[serde(rename = "q\\"\\n é")]', '#[serde()]', '#[cfg(all())]', '#[serde(rename = r#"raw"lit"#)]', '#[serde(rename = "",)]', '#[doc = "a"] #[serde(rename = "x2")] /** b */']
NAMES = ['alpha', 'r#type', 'data', 'gamma']

# Written on a field or a variant: not supported.
BAD = [
    'skip', 'default', 'flatten', 'rename', 'rename = 1', "rename = 'c'", 'rename = b"x"', 'rename("x")', 'rename()', 'rename(serialize = "a")', 'rename(serialize = "a", deserialize = "b")',
    'Rename = "x"', 'renamed = "x"', 'rename_all = "camelCase"', 'rename = "A", rename = "B"', 'rename = "A", rename = "A"', 'rename = "A", skip', 'skip, rename = "A"', 'rename = "A", default', 'rename = "A" "B"', 'rename = "A"; skip',
    'alias = "x"', 'with = "m"', 'skip_serializing_if = "Option::is_none"', 'skip_serializing', 'skip_deserializing', 'default = "f"', 'serialize_with = "f"', 'deserialize_with = "f"', 'borrow', 'bound = ""', 'getter = "f"', 'other', 'untagged', 'transparent', 'crate = "x"', 'tag = "t"', 'deny_unknown_fields',
    '"rename"', '1', 'rename = concat!("a", "b")', 'rename = NAME', 'rename = true', 'rename == "x"', 'rename: "x"', ',', 'a::rename = "x"', 'rename::a = "x"', 'rename = "x",,', 'r#rename', 'r#type = "x"', 'type = "x"', 'rename =', 'rename = -1', 'rename = {"x"}', 'rename = ("x")',
]
BAD_FORMS = ['#[serde]', '#[serde = "x"]', '#[serde = 1]', '#[serde{skip}]', '#[serde[skip]]']
BAD_SETS = [
    ['#[serde(rename = "A")]', '#[serde(rename = "B")]'],
    ['#[serde(rename = "A")]', '#[serde(rename = "A")]'],
    ['#[serde(rename = "A")]', '#[serde(skip)]'],
    ['#[serde(skip)]', '#[serde(rename = "A")]'],
    ['#[serde()]', '#[serde(default)]'],
    ['#[serde(default)]', '#[serde()]'],
    ['/** doc */', '#[serde(skip)]', '#[allow(unused)]'],
    ['#[serde(rename = "A")]', '/** doc */', '#[serde(rename = "B")]'],
    ['#[serde(rename = "A")]', '#[serde()]', '#[serde(rename = "B")]'],
    ['#[serde(rename = "A")]', '#[serde(rename = "B")]', '#[serde(rename = "C")]'],
    ['#[serde(rename = "A")]', '#[serde]'],
    ['#[serde(default)]', '#[serde(default)]'],
]


def struct(gen, fields, vis='pub ', outer='', name='S'):
    return f'{outer} DERIVE {vis}struct {name}{gen[0]} {gen[1]} {{ {fields} }}'


def good_structs(thorough):
    g0 = GENERICS[0]
    # Every parameter list with every number of fields; parameters are all used.
    for g in GENERICS:
        params_need = g[2]
        for vis in ['pub ', ''] if not thorough else ['pub ', '', 'pub(crate) ', 'pub(in crate) ']:
            fs = ', '.join(f'{vis}f{i}: {t}' for i, t in enumerate(params_need))
            yield struct(g, fs, vis=vis), g
            yield struct(g, fs + ',', vis=vis), g
            fs = ', '.join(f'{vis}f{i}: {t}' for i, t in enumerate(reversed(params_need)))
            yield struct(g, fs, vis=vis), g
        # Every attribute on every field.
        for a in ATTRS:
            for at in range(len(params_need)):
                fs = ', '.join(f'{a if i == at else ""} {NAMES[i % 4]}{"" if i < 4 else i}: {t}' for i, t in enumerate(params_need))
                yield struct(g, fs), g
        for outer in ['#[repr(C)]', '/** doc */', '#[allow(dead_code)]', '#[deprecated]', '#[must_use]', '#[non_exhaustive]', '#[cfg(all())]', '#[derive(Clone)]', '#[repr(align(64))]', '#[rustfmt::skip]']:
            fs = ', '.join(f'f{i}: {t}' for i, t in enumerate(params_need))
            if outer == '#[derive(Clone)]' and ('Tagged' in fs or 'T::Out' in fs or 'F: Both' in g[0] or 'Iterator' in g[0]):
                continue
            yield struct(g, fs, outer=outer), g
    # All pairs of attributes, and all triples of attributes over three fields.
    for k in [1, 2, 3] if thorough else [1, 2]:
        for aa in itertools.product(ATTRS, repeat=k):
            if len(set(a for a in aa if 'rename = "' in a)) < len([a for a in aa if 'rename = "' in a]):
                continue  # the same name twice
            if len([a for a in aa if 'raw"lit' in a]) > 1:
                continue
            fs = ', '.join(f'{a} pub {NAMES[i]}: {g0[2][i]}' for i, a in enumerate(aa))
            yield struct(g0, fs), g0
    # Names that the generated code might use itself, keywords, unicode.
    names = ['out', 'data', 'state', 'k', 's', 'v', 'key', 'value', 'map', 'seq', 'begin', 'finish', 'next', 'element', 'visitor', 'name', 'index', 'result', 'self_', 'inner', 'field', 'place', 'miniserde', 'alloc', 'core', 'std', 'Serialize_', 'Some_', 'string', 'null', 'boolean', 'default', 'take', 'usize', 'u8', 'str',
             'r#fn', 'r#match', 'r#struct', 'r#move', 'r#async', 'r#dyn', 'r#try', 'r#plain', 'é', '名前', '_x', 'x_', '__x', 'X', 'aB', 'r#box', 'union', 'raw', 'auto']
    for n in names:
        yield struct(g0, f'pub {n}: u8'), g0
        yield struct(g0, f'pub {n}: Option<Vec<u8>>, pub zz: u8'), g0
        yield struct(('<T>', '', []), f'pub zz: T, pub {n}: T'), GENERICS[1]
        yield struct(g0, f'#[serde(rename = "{n[2:] if n.startswith("r#") else n} ")] pub {n}: u8'), g0
    yield struct(g0, ', '.join(f'pub {n}: u8' for n in names)), g0
    # No fields.
    for g in ['', '<const N: usize>', '<const B: bool = true>', "<const A: char, const N: i8>"]:
        yield struct((g, '', []), ''), (g, '', [], None)
        yield struct((g, 'where u8: Copy', []), ''), (g, '', [], None)
    # Names of the type and of its parameters.
    for n in ['Foo', 'r#Type', 'r#fn', 'Map', 'Seq', 'Visitor', 'Serialize_', 'String_', 'Error', 'Fragment', 'S_', 'Été', 'lower', 'Place', 'State', 'Data']:
        yield struct(g0, 'pub a: u8', name=n), (None, '', [], None)
    for p in ['A', 'S', 'E', 'K', 'V', 'Map', 'Value', 'r#type', 'Ok_', 'D', 'Out', 'lower', 'Self_']:
        yield struct((f'<{p}>', '', []), f'pub a: {p}, pub b: Option<{p}>', name='Q'), (None, '', [], None)
        yield struct((f'<{p}>', f'where {p}: Clone', []), f'pub a: Vec<{p}>', name='Q'), (None, '', [], None)
        yield struct((f'<const {p}: usize>', '', []), f'pub a: [u8; {p}]', name='Q'), (None, '', [], None)
    for l in ["'a", "'b", "'de", "'x", "'out", "'r#type", "'__b", "'_a"]:
        yield struct((f'<{l}>', '', []), f'pub a: Lt<{l}>', name='Q'), (None, '', [], None)
        yield struct((f'<{l}, T: {l} + Clone>', '', []), f'pub a: Lt<{l}>, pub t: T', name='Q'), (None, '', [], None)
    # Recursive, with a path, and inside other items.
    for t in ['Option<Box<S>>', 'Vec<S>', 'std::collections::BTreeMap<String, S>', 'Box<[Option<Box<S>>; 2]>', '(Vec<S>, Option<Box<S>>)', 'Option<Box<self::S>>', 'Vec<super::Plain>', 'crate::Plain', '::std::option::Option<u8>']:
        yield struct(g0, f'pub a: {t}, pub b: u8'), g0
    for t in ['Option<Box<S<T>>>', 'Vec<S<T>>']:
        yield struct(('<T>', '', []), f'pub a: {t}, pub b: T'), GENERICS[1]
    for t in ['(u8)', '((u8, u8))', '[u8; 1 + 1]', '[u8; { 2 }]', '[u8; LEN]', '<u8 as Tr>::Out', 'Alias', 'Vec<<u8 as Tr>::Out>', 'Option<Option<()>>', 'mac!(u8)']:
        yield struct(g0, f'pub a: {t}'), g0
    # Self, in every place a type can hold it.
    for t in ['Option<Box<Self>>', 'Vec<Self>', 'std::collections::BTreeMap<String, Self>', 'Box<[Option<Box<Self>>; 2]>', '(Vec<Self>, Vec<S>)', 'Vec<(Self, Self)>']:
        yield struct(g0, f'pub a: {t}, pub b: u8'), g0
        yield struct(g0, f'pub b: u8, #[serde(rename = "x")] pub a: {t}'), g0
    for g in [('<T>', 'T'), ('<T: Clone>', 'T'), ("<'a, T>", "(Lt<'a>, T)"), ('<T, const N: usize>', '[T; N]'), ('<T = u8>', 'T')]:
        yield struct((g[0], '', []), f'pub a: Vec<Self>, pub b: {g[1]}'), (None, '', [], None)
        yield struct((g[0], 'where u8: Copy', []), f'pub b: {g[1]}, pub a: Option<Box<Self>>'), (None, '', [], None)
    yield struct(g0, 'pub a: [u8; Self::N]') + ' impl S { const N: usize = 2; }', g0
    # Items around it with the names of its fields or of things the generated code uses.
    for n in ['a', 'Ok', 'value', 's', 'state', 'out', 'data', 'k', 'r#type']:
        f = n if n != 'Ok' else 'a'
        for other in [f'pub const {n}: u8 = 1;', f'pub static {n}: u8 = 1;', f'pub struct {n};', f'pub fn {n}(_: u8) {{}}', f'pub mod {n} {{}}']:
            yield other + ' ' + struct(g0, f'pub {f}: u8, pub zz: Option<u8>'), g0
            yield other + ' DERIVE pub enum E { A, B }', g0
    for n in ['usize', 'str', 'Option', 'Box', 'Result', 'Vec', 'String', 'Cow', 'Error', 'Serialize', 'Deserialize', 'Visitor', 'Map', 'Fragment']:
        yield f'pub struct {n};' + ' ' + struct(g0, 'pub a: u8'), g0
        yield f'pub struct {n}; DERIVE pub enum E {{ A, B }}', g0
    # A parameter with the name of something else in scope.
    for other in ['pub type P = u8;', 'pub struct P;', 'pub mod P {}', 'pub enum P {}', 'pub trait P {}', 'pub struct P { pub a: u8 }', 'pub struct P<T>(pub T);', 'pub union P { pub a: u8 }']:
        for g, fs in [('<const P: usize>', 'pub a: [u8; P], pub b: Option<u8>'), ("<'a, const P: bool, T>", "pub a: Lt<'a>, pub b: T"), ('<T = u8, const P: usize = 2>', 'pub a: [T; P], pub b: Vec<Self>'), ('<const P: usize>', ''), ('<P>', 'pub a: P, pub b: Vec<Self>'), ("<'P, P: 'P, const u8: bool>", "pub a: Lt<'P>, pub b: P")]:
            yield other + ' ' + struct((g, '', []), fs, name='Q'), (None, '', [], None)
    for n in ['u8', 'str', 'usize', 'bool', 'Option', 'Vec', 'String', 'Copy', 'std', 'miniserde', 'Lt']:
        yield struct((f'<const {n}: bool>', '', []), 'pub a: std::primitive::u8', name='Q2'), (None, '', [], None)
        if n not in ('std', 'miniserde'):
            yield struct((f'<{n}>', '', []), f'pub a: {n}', name='Q'), (None, '', [], None)
    for n in ['Some', 'None', 'Err', 'Ok', 'unreachable']:
        yield f'pub struct {n};' + ' ' + struct(g0, 'pub a: u8'), g0
        yield f'pub struct {n}; DERIVE pub enum E {{ A, B }}', g0
    yield 'pub fn f() { ' + struct(g0, 'pub a: u8') + ' }', (None, '', [], None)
    yield 'pub fn f<X>() { ' + struct(g0, 'pub a: Option<Vec<u8>>') + ' ' + struct(g0, 'pub a: u8', name='S2') + ' }', (None, '', [], None)
    yield 'pub const C: () = { ' + struct(g0, 'pub a: u8') + ' };', (None, '', [], None)
    yield 'macro_rules! m { ($n:ident, $f:ident, $t:ty, $l:literal) => { DERIVE pub struct $n { pub $f: $t, #[serde(rename = $l)] pub b: $t } } } m!(S, a, Vec<u8>, "lit");', (None, '', [], None)
    yield "macro_rules! m { ($n:ident $f:ident) => { DERIVE pub struct $n<'a, T> { pub a: Lt<'a>, pub $f: T } } } m!(S x);", (None, '', [], None)
    yield 'macro_rules! m { ($($f:ident),*) => { DERIVE pub struct S { $(pub $f: u8),* } } } m!(a, b, c);', (None, '', [], None)
    for n in [0, 1, 2, 3, 16, 64, 256, 300]:
        yield struct(g0, ', '.join(f'pub f{i}: {["u8", "Option<u8>", "String"][i % 3]}' for i in range(n))), g0


def good_enums(thorough):
    va = ATTRS
    for k in [1, 2, 3] if thorough else [1, 2]:
        for aa in itertools.product(va, repeat=k):
            if len(set(a for a in aa if 'rename = "' in a)) < len([a for a in aa if 'rename = "' in a]) or len([a for a in aa if 'raw"lit' in a]) > 1:
                continue
            yield 'DERIVE pub enum E { ' + ', '.join(f'{a} V{i}' for i, a in enumerate(aa)) + ' }'
    for a in va:
        for at in range(3):
            yield 'DERIVE enum E { ' + ', '.join(f'{a if i == at else ""} V{i}' for i in range(3)) + ', }'
    for outer in ['#[repr(u8)]', '#[repr(C)]', '#[repr(i64)]', '#[derive(Clone, Copy, PartialEq)]', '/** doc */', '#[deprecated]', '#[non_exhaustive]', '#[must_use]', '#[allow(unused)]']:
        yield f'{outer} DERIVE pub enum E {{ A, B, C }}'
        if 'repr(u8)' not in outer:
            yield f'{outer} DERIVE pub enum E {{ A = 5, B = -3, C }}' if outer != '#[repr(u8)]' else ''
    yield 'DERIVE pub enum E { A = 1 + 2, B = { 7 }, C = LEN as isize }'
    names = ['Ok_', 'S', 'Value', 'value', 's', 'Map', 'Str', 'Null', 'r#fn', 'r#type', 'r#Plain', 'Été', '名', 'a', '_A', '__B', 'A_', 'E', 'None', 'Some', 'Ok', 'Err', 'Fragment', 'Self_', 'str', 'Option', 'out', 'T']
    for n in names:
        yield f'DERIVE pub enum E {{ {n} }}'
        yield f'DERIVE pub enum E {{ A1, {n}, #[serde(rename = "zz")] Z }}'
    yield 'DERIVE pub enum E { ' + ', '.join(names) + ' }'
    for n in ['Foo', 'r#fn', 'r#Plain', 'Map', 'Visitor', 'Fragment', 'Error', 'lower', 'Été', 'Ordering']:
        yield f'DERIVE pub enum {n} {{ A, B }}'
    for n in [0, 1, 2, 3, 16, 64, 256, 300]:
        yield 'DERIVE pub enum E { ' + ', '.join(f'V{i}' for i in range(n)) + ' }'
    yield 'pub fn f() { DERIVE enum E { A } }'
    yield 'macro_rules! m { ($n:ident: $($v:ident $l:literal),*) => { DERIVE pub enum $n { $(#[serde(rename = $l)] $v),* } } } m!(E: A "1", B "2");'


def bad_shapes(thorough):
    gens = [('', '', 'u8'), ('<T>', '', 'T'), ("<'a>", '', "&'a u8"), ('<const N: usize>', '', '[u8; N]'), ('<T>', 'where T: Clone', 'T'), ('<T: Copy = u8>', '', 'T')]
    for p, w, t in gens:
        for vis in ['pub ', ''] if thorough else ['pub ']:
            for n in [1, 2, 3, 5]:
                fs = ', '.join([t] + ['u8'] * (n - 1))
                yield f'DERIVE {vis}struct S{p}({fs}) {w};'
                yield f'DERIVE {vis}struct S{p}({", ".join(reversed(fs.split(", ")))}) {w};' if n > 1 and ';' not in fs else f'DERIVE {vis}struct S{p}(pub {fs}) {w};'
        if p in ('', '<const N: usize>'):
            yield f'DERIVE pub struct S{p}() {w};'
            yield f'DERIVE pub struct S{p} {w};'
        if p not in ('<T>', '<T: Copy = u8>'):
            yield f'DERIVE pub union U{p} {w} {{ a: {t} }}'
            yield f'DERIVE pub union U{p} {w} {{ a: {t}, b: u8, c: [u8; 4] }}'
    yield 'DERIVE pub union U<T: Copy> { a: T, b: u8 }'
    yield '#[repr(C)] DERIVE pub union U { a: u8 }'
    yield '#[repr(transparent)] DERIVE pub struct S(u8);'
    yield 'DERIVE pub struct S(#[serde(rename = "a")] u8);'
    yield 'DERIVE pub struct S where u8: Copy;'
    yield 'DERIVE pub struct r#type;'
    data = ['()', '{}', '(u8)', '{ a: u8 }', '(u8, String)', '{ a: u8, b: Vec<u8> }', '(())', '(#[serde(rename = "x")] u8)', '{ #[serde(rename = "x")] a: u8 }']
    for n in range(1, 5 if thorough else 4):
        for d in data:
            for bad in range(1, 1 << n):
                if not thorough and bin(bad).count('1') not in (1, n):
                    continue
                yield 'DERIVE pub enum E { ' + ', '.join(f'V{i}{d if bad >> i & 1 else ""}' for i in range(n)) + ' }'
    for d in data:
        yield f'DERIVE pub enum E {{ A, #[serde(rename = "x")] B{d}, C }}'
        yield f'DERIVE pub enum E {{ A, /// doc\n B{d} }}'
        yield f'#[repr(u8)] DERIVE pub enum E {{ A{d} = 1, B = 2 }}'
        yield f'DERIVE pub enum r#fn {{ A{d} }}'
        yield 'DERIVE pub enum E { ' + ', '.join(f'V{i}' for i in range(70)) + f', W{d} }}'
    # Generics or where clauses on enums, with and without data.
    for v in ['A', 'A, B', '#[serde(rename = "x")] A', 'A = 1']:
        yield f'DERIVE pub enum E<const N: usize> {{ {v} }}'
        yield f'DERIVE pub enum E<const N: usize = 1, const B: bool = true> {{ {v} }}'
        yield f'DERIVE pub enum E where u8: Copy {{ {v} }}'
        yield f"DERIVE pub enum E where for<'a> &'a u8: Copy, {{ {v} }}"
        yield f'DERIVE pub enum E<const N: usize> where u8: Copy {{ {v} }}'
    yield 'DERIVE pub enum E<T> { A(T) }'
    yield 'DERIVE pub enum E<T> { A, B(std::marker::PhantomData<T>) }'
    yield "DERIVE pub enum E<'a> { A, B(&'a u8) }"
    yield "DERIVE pub enum E<T> where T: Clone { A, B { t: T } }"
    yield "DERIVE pub enum E<T = u8> { B { t: T }, A }"


def bad_attrs(thorough):
    one = [[f'#[serde({b})]'] for b in BAD] + [[b] for b in BAD_FORMS] + BAD_SETS
    hosts = []
    for n in range(1, 4):
        for at in range(n):
            hosts.append(('struct', n, at))
            hosts.append(('enum', n, at))
    for attrs in one:
        a = '\n'.join(attrs) + '\n'
        for kind, n, at in hosts:
            if kind == 'struct':
                fs = ', '.join((a if i == at else '') + f'pub f{i}: Option<u8>' for i in range(n))
                yield f'DERIVE pub struct S {{ {fs} }}'
            else:
                yield 'DERIVE pub enum E { ' + ', '.join((a if i == at else '') + f'V{i}' for i in range(n)) + ' }'
        if thorough or len(attrs) > 1 or attrs[0] in ('#[serde(skip)]', '#[serde]', '#[serde(rename = "A", skip)]', '#[serde(rename = "A", rename = "B")]'):
            for g in GENERICS[1:]:
                fs = [f'pub f{i}: {t}' for i, t in enumerate(g[2])]
                for at in {0, len(fs) - 1}:
                    yield struct(g, ', '.join((a if i == at else '') + f for i, f in enumerate(fs)))
            for good in ATTRS[1:5]:
                yield f'DERIVE pub struct S {{ {good} pub a: u8, {a} pub b: u8 }}'
                yield f'DERIVE pub struct S {{ {a} pub a: u8, {good} pub b: u8 }}'
                yield f'DERIVE pub enum E {{ {good} A, {a} B }}'
                yield f'DERIVE pub enum E {{ {a} A, {good} B }}'
            for n in [16, 64, 200]:
                for at in [0, n // 2, n - 1]:
                    yield 'DERIVE pub struct S { ' + ', '.join((a if i == at else '') + f'pub f{i}: u8' for i in range(n)) + ' }'
                    yield 'DERIVE pub enum E { ' + ', '.join((a if i == at else '') + f'V{i}' for i in range(n)) + ' }'
        yield f'macro_rules! m {{ () => {{ DERIVE pub struct S {{ {a} pub a: u8 }} }} }} m!();'
        yield f'pub fn f() {{ DERIVE struct S {{ {a} a: u8 }} }}'
        yield f'DERIVE pub enum E {{ {a} A = 5, B = 3 }}'
        yield f'DERIVE pub struct S {{ {a} pub r#type: u8 }}'


PRELUDE = '''#![allow(warnings)]
#[macro_use] extern crate miniserde;
pub trait Both: miniserde::Serialize + miniserde::Deserialize {}
impl<T: miniserde::Serialize + miniserde::Deserialize> Both for T {}
pub trait Tr { type Out; }
impl Tr for u8 { type Out = u16; }
impl Tr for str { type Out = u16; }
pub const LEN: usize = 2;
pub type Alias = Option<Vec<u8>>;
macro_rules! mac { ($t:ty) => { $t } }
pub struct Plain;
#[derive(Clone)] pub struct Lt<'a>(std::marker::PhantomData<&'a ()>);
pub struct Tagged<T: ?Sized>(std::marker::PhantomData<T>);
mod imps {
    use super::*;
    use miniserde::de::Visitor;
    use miniserde::ser::Fragment;
    make_place!(Place);
    impl miniserde::Serialize for Plain { fn begin(&self) -> Fragment<'_> { Fragment::Null } }
    impl<'a> miniserde::Serialize for Lt<'a> { fn begin(&self) -> Fragment<'_> { Fragment::Null } }
    impl<T: ?Sized> miniserde::Serialize for Tagged<T> { fn begin(&self) -> Fragment<'_> { Fragment::Null } }
    impl Visitor for Place<Plain> {}
    impl<'a> Visitor for Place<Lt<'a>> {}
    impl<T: ?Sized> Visitor for Place<Tagged<T>> {}
    impl miniserde::Deserialize for Plain { fn begin(o: &mut Option<Self>) -> &mut dyn Visitor { Place::new(o) } }
    impl<'a> miniserde::Deserialize for Lt<'a> { fn begin(o: &mut Option<Self>) -> &mut dyn Visitor { Place::new(o) } }
    impl<T: ?Sized> miniserde::Deserialize for Tagged<T> { fn begin(o: &mut Option<Self>) -> &mut dyn Visitor { Place::new(o) } }
}
'''
