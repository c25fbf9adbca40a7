//! Explicit-state pushdown recogniser of JSON texts (RFC 8259 minus unpaired surrogate escapes).
//! Deterministic; `step` returns None when no continuation can be a JSON text (dead).

use std::collections::{HashMap, VecDeque};


#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum L {
    /// A value must come.
    Value,
    /// After '[': a value or ']'.
    ArrFirst,
    /// After '{': a key or '}'.
    ObjFirst,
    /// After ',' in an object: a key.
    ObjNext,
    Colon,
    /// A value is complete.
    After,
    Word(u8, u8),
    Minus,
    Zero,
    Int,
    Dot,
    Frac,
    E,
    ESign,
    Exp,
    /// Inside a string; true for a key.
    Str(bool),
    Esc(bool),
    /// Hex digits of \u: which of the four, and what is known about the unit.
    Hex(bool, u8, Cls),
    /// After a high surrogate unit.
    NeedBs(bool),
    NeedU(bool),
    /// Digits of the second unit, which must be DC00..DFFF.
    Low(bool, u8),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Cls {
    Unknown,
    D,
    Norm,
    High,
}

const WORDS: [&[u8]; 3] = [b"null", b"true", b"false"];

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Cfg {
    pub l: L,
    /// true = object
    pub stack: Vec<bool>,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg { l: L::Value, stack: Vec::new() }
    }
}

fn is_ws(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\n' | '\r')
}

impl Cfg {
    pub fn accepting(&self) -> bool {
        self.stack.is_empty() && matches!(self.l, L::After | L::Zero | L::Int | L::Frac | L::Exp)
    }

    fn after(&mut self, c: char) -> bool {
        if is_ws(c) {
            self.l = L::After;
            return true;
        }
        match (c, self.stack.last()) {
            (',', Some(true)) => self.l = L::ObjNext,
            (',', Some(false)) => self.l = L::Value,
            (']', Some(false)) | ('}', Some(true)) => {
                self.stack.pop();
                self.l = L::After;
            }
            _ => return false,
        }
        true
    }

    fn value(&mut self, c: char) -> bool {
        if is_ws(c) {
            return true;
        }
        self.l = match c {
            '"' => L::Str(false),
            '{' => {
                self.stack.push(true);
                L::ObjFirst
            }
            '[' => {
                self.stack.push(false);
                L::ArrFirst
            }
            'n' => L::Word(0, 1),
            't' => L::Word(1, 1),
            'f' => L::Word(2, 1),
            '-' => L::Minus,
            '0' => L::Zero,
            '1'..='9' => L::Int,
            _ => return false,
        };
        true
    }

    /// Advances; false means dead (self is then meaningless).
    pub fn step(&mut self, c: char) -> bool {
        match self.l {
            L::Value => self.value(c),
            L::ArrFirst => {
                if c == ']' {
                    self.stack.pop();
                    self.l = L::After;
                    true
                } else {
                    self.value(c)
                }
            }
            L::ObjFirst | L::ObjNext => {
                if is_ws(c) {
                    return true;
                }
                match c {
                    '"' => self.l = L::Str(true),
                    '}' if self.l == L::ObjFirst => {
                        self.stack.pop();
                        self.l = L::After;
                    }
                    _ => return false,
                }
                true
            }
            L::Colon => {
                if c == ':' {
                    self.l = L::Value;
                }
                c == ':' || is_ws(c)
            }
            L::After => self.after(c),
            L::Word(w, i) => {
                let word = WORDS[w as usize];
                if word[i as usize] as char != c {
                    return false;
                }
                self.l = if i as usize + 1 == word.len() { L::After } else { L::Word(w, i + 1) };
                true
            }
            L::Minus => {
                self.l = match c {
                    '0' => L::Zero,
                    '1'..='9' => L::Int,
                    _ => return false,
                };
                true
            }
            L::Zero | L::Int | L::Frac | L::Exp => {
                let l = self.l;
                match c {
                    '0'..='9' if l != L::Zero => true,
                    '.' if matches!(l, L::Zero | L::Int) => {
                        self.l = L::Dot;
                        true
                    }
                    'e' | 'E' if l != L::Exp => {
                        self.l = L::E;
                        true
                    }
                    _ => self.after(c),
                }
            }
            L::Dot => {
                self.l = L::Frac;
                c.is_ascii_digit()
            }
            L::E => {
                self.l = match c {
                    '+' | '-' => L::ESign,
                    '0'..='9' => L::Exp,
                    _ => return false,
                };
                true
            }
            L::ESign => {
                self.l = L::Exp;
                c.is_ascii_digit()
            }
            L::Str(k) => {
                match c {
                    '"' => self.l = if k { L::Colon } else { L::After },
                    '\\' => self.l = L::Esc(k),
                    c if (c as u32) < 0x20 => return false,
                    _ => {}
                }
                true
            }
            L::Esc(k) => {
                self.l = match c {
                    '"' | '\\' | '/' | 'b' | 'f' | 'n' | 'r' | 't' => L::Str(k),
                    'u' => L::Hex(k, 0, Cls::Unknown),
                    _ => return false,
                };
                true
            }
            L::Hex(k, i, cls) => {
                if !c.is_ascii_hexdigit() {
                    return false;
                }
                let d = c.to_digit(16).unwrap();
                let cls = match (i, cls) {
                    (0, _) => {
                        if d == 0xd {
                            Cls::D
                        } else {
                            Cls::Norm
                        }
                    }
                    (1, Cls::D) => match d {
                        0..=7 => Cls::Norm,
                        8..=0xb => Cls::High,
                        _ => return self.low_dead(),
                    },
                    (_, x) => x,
                };
                self.l = if i < 3 {
                    L::Hex(k, i + 1, cls)
                } else if cls == Cls::High {
                    L::NeedBs(k)
                } else {
                    L::Str(k)
                };
                true
            }
            L::NeedBs(k) => {
                self.l = L::NeedU(k);
                c == '\\'
            }
            L::NeedU(k) => {
                self.l = L::Low(k, 0);
                c == 'u'
            }
            L::Low(k, i) => {
                if !c.is_ascii_hexdigit() {
                    return false;
                }
                let d = c.to_digit(16).unwrap();
                if (i == 0 && d != 0xd) || (i == 1 && d < 0xc) {
                    return false;
                }
                self.l = if i < 3 { L::Low(k, i + 1) } else { L::Str(k) };
                true
            }
        }
    }

    fn low_dead(&self) -> bool {
        false
    }

    pub fn run(&self, s: &str) -> Option<Cfg> {
        let mut c = self.clone();
        for ch in s.chars() {
            if !c.step(ch) {
                return None;
            }
        }
        Some(c)
    }
}

pub fn accepts(s: &str) -> bool {
    Cfg::default().run(s).map_or(false, |c| c.accepting())
}

/// All configurations with at most `depth` open containers, each with a shortest access string,
/// in breadth-first order. Exploration alphabet: every ASCII character.
pub struct Space {
    pub cfgs: Vec<Cfg>,
    pub access: Vec<String>,
    pub index: HashMap<Cfg, usize>,
    /// live transitions (source, char class representative) counted over ASCII
    pub transitions: u64,
    /// Per configuration, a shortest accepted continuation.
    pub completion: Vec<String>,
}

pub fn space(depth: usize) -> Space {
    let mut cfgs = vec![Cfg::default()];
    let mut access = vec![String::new()];
    let mut index = HashMap::new();
    index.insert(Cfg::default(), 0);
    let mut q = VecDeque::new();
    q.push_back(0usize);
    let mut succ: Vec<Vec<(char, usize)>> = vec![Vec::new()];
    let mut transitions = 0;
    // Simplest characters first, so that access strings are readable.
    let mut order: Vec<char> = "1 a\"[{]},:".chars().collect();
    for b in 0..128u8 {
        if !order.contains(&(b as char)) {
            order.push(b as char);
        }
    }
    while let Some(i) = q.pop_front() {
        for &c in &order {
            let mut n = cfgs[i].clone();
            if !n.step(c) || n.stack.len() > depth {
                continue;
            }
            transitions += 1;
            let j = *index.entry(n.clone()).or_insert_with(|| {
                cfgs.push(n);
                let mut a = access[i].clone();
                a.push(c);
                access.push(a);
                succ.push(Vec::new());
                q.push_back(cfgs.len() - 1);
                cfgs.len() - 1
            });
            succ[i].push((c, j));
        }
    }
    // Shortest completions by backward relaxation.
    let mut completion: Vec<Option<String>> = cfgs.iter().map(|c| c.accepting().then(String::new)).collect();
    loop {
        let mut changed = false;
        for i in 0..cfgs.len() {
            for &(c, j) in &succ[i] {
                if let Some(t) = &completion[j] {
                    let cand = t.len() + 1;
                    if completion[i].as_ref().map_or(true, |x| x.len() > cand) {
                        let mut s = String::new();
                        s.push(c);
                        s.push_str(t);
                        completion[i] = Some(s);
                        changed = true;
                    }
                }
            }
        }
        if !changed {
            break;
        }
    }
    let completion = completion.into_iter().map(|c| c.expect("every configuration is live")).collect();
    Space { cfgs, access, index, transitions, completion }
}

impl Space {
    /// A set of suffixes that tells every two inequivalent configurations apart: all shortest
    /// completions, extended by the completions after one more character where needed. Returns the
    /// set and the number of pairs it does not separate.
    pub fn separators(&self) -> (Vec<String>, usize) {
        let mut w: Vec<String> = self.completion.clone();
        for pre in ["0", ".0", "e0", "}", "]", ",0", " ", " 1", "\"", "1\"", "u0000", "/"] {
            for c in &self.completion {
                let s = format!("{}{}", pre, c);
                w.push(s);
            }
        }
        w.sort_by(|a, b| a.len().cmp(&b.len()).then(a.cmp(b)));
        w.dedup();
        let n = self.cfgs.len();
        // Greedy partition refinement, shortest first.
        let mut block = vec![0usize; n];
        let mut blocks = 1;
        let mut keep = Vec::new();
        for s in &w {
            let mut map: HashMap<(usize, bool), usize> = HashMap::new();
            let mut nb = vec![0usize; n];
            for i in 0..n {
                let acc = self.cfgs[i].run(s).map_or(false, |c| c.accepting());
                let k = map.len();
                nb[i] = *map.entry((block[i], acc)).or_insert(k);
            }
            if map.len() > blocks {
                blocks = map.len();
                block = nb;
                keep.push(s.clone());
            }
        }
        let mut unsep = 0;
        let mut sizes = HashMap::new();
        for b in &block {
            *sizes.entry(*b).or_insert(0usize) += 1;
        }
        for s in sizes.values() {
            unsep += s * (s - 1) / 2;
        }
        // Every shortest completion stays in, for positive coverage.
        for c in &self.completion {
            if !keep.contains(c) {
                keep.push(c.clone());
            }
        }
        (keep, unsep)
    }
}
