//! Reference JSON reader: a plain recursive-descent transcription of RFC 8259.

#[derive(Clone, Debug, PartialEq)]
pub enum RV {
    Null,
    Bool(bool),
    /// The literal, unevaluated.
    Num(String),
    Str(String),
    Arr(Vec<RV>),
    /// Every entry in document order, duplicates included.
    Obj(Vec<(String, RV)>),
}

#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Flags {
    /// Some string held an unpaired surrogate escape (replaced by U+FFFD in the tree).
    pub lone: bool,
}

pub struct Reader<'a> {
    s: &'a [char],
    p: usize,
    flags: Flags,
}

pub fn read(text: &str) -> Option<(RV, Flags)> {
    let cs: Vec<char> = text.chars().collect();
    let mut r = Reader { s: &cs, p: 0, flags: Flags::default() };
    let v = r.value()?;
    r.ws();
    if r.p == cs.len() {
        Some((v, r.flags))
    } else {
        None
    }
}

/// Reads one JSON text that must be acceptable (no lone surrogates).
pub fn read_ok(text: &str) -> Option<RV> {
    match read(text) {
        Some((v, f)) if !f.lone => Some(v),
        _ => None,
    }
}

impl<'a> Reader<'a> {
    fn peek(&self) -> Option<char> {
        self.s.get(self.p).copied()
    }
    fn eat(&mut self, c: char) -> Option<()> {
        if self.peek()? == c {
            self.p += 1;
            Some(())
        } else {
            None
        }
    }
    fn ws(&mut self) {
        while matches!(self.peek(), Some(' ') | Some('\t') | Some('\n') | Some('\r')) {
            self.p += 1;
        }
    }
    fn word(&mut self, w: &str) -> Option<()> {
        for c in w.chars() {
            self.eat(c)?;
        }
        Some(())
    }
    fn value(&mut self) -> Option<RV> {
        self.ws();
        match self.peek()? {
            'n' => self.word("null").map(|_| RV::Null),
            't' => self.word("true").map(|_| RV::Bool(true)),
            'f' => self.word("false").map(|_| RV::Bool(false)),
            '"' => self.string().map(RV::Str),
            '[' => {
                self.p += 1;
                let mut out = Vec::new();
                self.ws();
                if self.peek()? == ']' {
                    self.p += 1;
                    return Some(RV::Arr(out));
                }
                loop {
                    out.push(self.value()?);
                    self.ws();
                    match self.peek()? {
                        ',' => self.p += 1,
                        ']' => {
                            self.p += 1;
                            return Some(RV::Arr(out));
                        }
                        _ => return None,
                    }
                }
            }
            '{' => {
                self.p += 1;
                let mut out = Vec::new();
                self.ws();
                if self.peek()? == '}' {
                    self.p += 1;
                    return Some(RV::Obj(out));
                }
                loop {
                    self.ws();
                    if self.peek()? != '"' {
                        return None;
                    }
                    let k = self.string()?;
                    self.ws();
                    self.eat(':')?;
                    let v = self.value()?;
                    out.push((k, v));
                    self.ws();
                    match self.peek()? {
                        ',' => self.p += 1,
                        '}' => {
                            self.p += 1;
                            return Some(RV::Obj(out));
                        }
                        _ => return None,
                    }
                }
            }
            _ => self.number(),
        }
    }
    fn digits(&mut self) -> Option<()> {
        if !self.peek()?.is_ascii_digit() {
            return None;
        }
        while matches!(self.peek(), Some(c) if c.is_ascii_digit()) {
            self.p += 1;
        }
        Some(())
    }
    fn number(&mut self) -> Option<RV> {
        let start = self.p;
        if self.peek()? == '-' {
            self.p += 1;
        }
        if self.peek()? == '0' {
            self.p += 1;
        } else {
            self.digits()?;
        }
        if self.peek() == Some('.') {
            self.p += 1;
            self.digits()?;
        }
        if matches!(self.peek(), Some('e') | Some('E')) {
            self.p += 1;
            if matches!(self.peek(), Some('+') | Some('-')) {
                self.p += 1;
            }
            self.digits()?;
        }
        Some(RV::Num(self.s[start..self.p].iter().collect()))
    }
    fn hex4(&mut self) -> Option<u32> {
        let mut n = 0;
        for _ in 0..4 {
            let c = self.peek()?;
            if !c.is_ascii() {
                return None;
            }
            n = n * 16 + c.to_digit(16)?;
            self.p += 1;
        }
        Some(n)
    }
    fn string(&mut self) -> Option<String> {
        self.eat('"')?;
        // Decode to UTF-16 code units first, then to characters.
        let mut units: Vec<u16> = Vec::new();
        // Only *escaped* surrogates can occur; raw characters are never surrogates.
        loop {
            let c = self.peek()?;
            self.p += 1;
            match c {
                '"' => break,
                '\\' => {
                    let e = self.peek()?;
                    self.p += 1;
                    let u = match e {
                        '"' => 0x22,
                        '\\' => 0x5c,
                        '/' => 0x2f,
                        'b' => 8,
                        'f' => 0xc,
                        'n' => 0xa,
                        'r' => 0xd,
                        't' => 9,
                        'u' => self.hex4()? as u16,
                        _ => return None,
                    };
                    units.push(u);
                }
                c if (c as u32) < 0x20 => return None,
                c => {
                    let mut b = [0u16; 2];
                    units.extend_from_slice(c.encode_utf16(&mut b));
                }
            }
        }
        let mut out = String::new();
        for r in char::decode_utf16(units) {
            match r {
                Ok(c) => out.push(c),
                Err(_) => {
                    self.flags.lone = true;
                    out.push('\u{fffd}');
                }
            }
        }
        Some(out)
    }
}

impl RV {
    /// Canonical text: no whitespace, strings minimally escaped, numbers as written.
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.render(&mut s, &mut |_, _| {});
        s
    }
    /// `gap(n, out)` is called at every place where whitespace may stand; n counts the gaps.
    pub fn render(&self, out: &mut String, gap: &mut dyn FnMut(usize, &mut String)) {
        let mut n = 0;
        let mut g = |out: &mut String| {
            gap(n, out);
            n += 1;
        };
        fn go(v: &RV, out: &mut String, g: &mut dyn FnMut(&mut String)) {
            match v {
                RV::Null => out.push_str("null"),
                RV::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
                RV::Num(n) => out.push_str(n),
                RV::Str(s) => quote(s, out),
                RV::Arr(a) => {
                    out.push('[');
                    g(out);
                    for (i, x) in a.iter().enumerate() {
                        if i > 0 {
                            out.push(',');
                            g(out);
                        }
                        go(x, out, g);
                        g(out);
                    }
                    out.push(']');
                }
                RV::Obj(o) => {
                    out.push('{');
                    g(out);
                    for (i, (k, x)) in o.iter().enumerate() {
                        if i > 0 {
                            out.push(',');
                            g(out);
                        }
                        quote(k, out);
                        g(out);
                        out.push(':');
                        g(out);
                        go(x, out, g);
                        g(out);
                    }
                    out.push('}');
                }
            }
        }
        g(out);
        go(self, out, &mut g);
        g(out);
    }
    /// Objects reduced to their last-wins content, keys sorted.
    pub fn dedup(&self) -> RV {
        match self {
            RV::Arr(a) => RV::Arr(a.iter().map(RV::dedup).collect()),
            RV::Obj(o) => {
                let mut m = std::collections::BTreeMap::new();
                for (k, v) in o {
                    m.insert(k.clone(), v.dedup());
                }
                RV::Obj(m.into_iter().collect())
            }
            x => x.clone(),
        }
    }
    pub fn nodes(&self) -> usize {
        match self {
            RV::Arr(a) => 1 + a.iter().map(RV::nodes).sum::<usize>(),
            RV::Obj(o) => 1 + o.iter().map(|(_, v)| v.nodes()).sum::<usize>(),
            _ => 1,
        }
    }
    pub fn any_num(&self, f: &mut dyn FnMut(&str) -> bool) -> bool {
        match self {
            RV::Num(n) => f(n),
            RV::Arr(a) => a.iter().any(|v| v.any_num(f)),
            RV::Obj(o) => o.iter().any(|(_, v)| v.any_num(f)),
            _ => false,
        }
    }
}

pub fn quote(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
}
