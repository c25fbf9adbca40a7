#!/usr/bin/env python3
"""Writes harness/derives/src/wide.rs: derived definitions of many sizes."""
import os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o = ['// Written by tools/gen_derives.py.', 'use super::*;', '']
D = '#[derive(Serialize, Deserialize)]'
sizes = list(range(0, 10)) + [12, 16, 17, 24, 32, 33, 64, 65, 130, 257]
regs = []
types = ['u8', 'String', 'Option<u8>', 'bool', 'i16', 'Vec<u8>', 'Option<String>', '(u8, bool)', 'u64', 'Option<Vec<Option<u8>>>', '[u8; 2]', 'Box<u8>', 'f64', 'i64']
for n in sizes:
    fs = ', '.join(f'f{i} "f{i}": {types[(i * 5 + n) % len(types)] if n < 60 else ["u8", "Option<u8>", "u16"][i % 3]}' for i in range(n))
    o.append(f'model_struct! {{ {D} W{n} {{ {fs} }} }}')
    regs.append(f'W{n}')
# All optional, and all renamed to each other's names (rotation).
for n in [2, 3, 8, 40]:
    fs = ', '.join(f'#[serde(rename = "g{(i + 1) % n}")] g{i} "g{(i + 1) % n}": u16' for i in range(n))
    o.append(f'model_struct! {{ {D} R{n} {{ {fs} }} }}')
    regs.append(f'R{n}')
for n in [2, 7, 33]:
    fs = ', '.join(f'h{i} "h{i}": Option<u8>' for i in range(n))
    o.append(f'model_struct! {{ {D} O{n} {{ {fs} }} }}')
    regs.append(f'O{n}')
enums = []
for n in [1, 2, 3, 4, 5, 8, 16, 17, 26, 64, 129, 257]:
    vs = ', '.join(f'V{i} "V{i}"' for i in range(n))
    o.append(f'model_enum! {{ {D} E{n} {{ {vs} }} }}')
    enums.append(f'E{n}')
for n in [2, 3, 7, 40]:
    vs = ', '.join(f'#[serde(rename = "V{(i + 1) % n}")] V{i} "V{(i + 1) % n}"' for i in range(n))
    o.append(f'model_enum! {{ {D} N{n} {{ {vs} }} }}')
    enums.append(f'N{n}')
o.append('')
o.append('#[macro_export]\nmacro_rules! wide_structs { ($m:ident $($a:tt)*) => { $m!($($a)* ' + ' '.join(f'[$crate::wide::{r}]' for r in regs) + ') } }')
o.append('#[macro_export]\nmacro_rules! wide_enums { ($m:ident $($a:tt)*) => { $m!($($a)* ' + ' '.join(f'[$crate::wide::{r}]' for r in enums) + ') } }')
open(os.path.join(here, 'harness/derives/src/wide.rs'), 'w').write('\n'.join(o) + '\n')
