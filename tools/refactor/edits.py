"""Edits that keep the behaviour; every check has to stay quiet on each. tools/tryquiet.sh runs them."""
DE='src/json/de.rs'; SER='src/json/ser.rs'; IMPL='src/de/impls.rs'; DROP='src/json/drop.rs'
ARR='src/json/array.rs'; OBJ='src/json/object.rs'; VAL='src/json/value.rs'; DDE='derive/src/de.rs'; DSER='derive/src/ser.rs'
EDITS={}
# Texts: helpers extracted, the loop rewritten, other matching.
EDITS['texts']=[(DE,'''            while self.pos < self.input.len() && !ESCAPE[usize::from(self.input[self.pos])] {
                self.pos += 1;
            }
            if self.pos == self.input.len() {
                return Err(Error);
            }
            match self.input[self.pos] {''','''            let rest = &self.input[self.pos..];
            let special = match rest.iter().position(|&byte| ESCAPE[usize::from(byte)]) {
                Some(offset) => {
                    self.pos += offset;
                    rest[offset]
                }
                None => {
                    self.pos = self.input.len();
                    return Err(Error);
                }
            };
            match special {'''),
(DE,'''                        self.buffer.extend_from_slice(&self.input[start..self.pos]);
                        self.pos += 1;
                        return Ok(result(&self.buffer));
                    }
                }
                b'\\\\' => {
                    self.buffer.extend_from_slice(&self.input[start..self.pos]);
                    self.pos += 1;''','''                        self.copy_raw(start);
                        return Ok(result(&self.buffer));
                    }
                }
                b'\\\\' => {
                    self.copy_raw(start);'''),
(DE,'''    fn next_or_eof(&mut self) -> Result<u8> {''','''    /// Copies everything up to the current byte, and passes that byte.
    fn copy_raw(&mut self, start: usize) {
        let raw = &self.input[start..self.pos];
        self.buffer.reserve(raw.len());
        for &byte in raw {
            self.buffer.push(byte);
        }
        self.pos += 1;
    }

    fn next_or_eof(&mut self) -> Result<u8> {'''),
(DE,'''        let mut n = 0;
        for _ in 0..4 {
            n = match self.next_or_eof()? {
                c @ b'0'..=b'9' => n * 16_u16 + u16::from(c - b'0'),
                b'a' | b'A' => n * 16_u16 + 10_u16,
                b'b' | b'B' => n * 16_u16 + 11_u16,
                b'c' | b'C' => n * 16_u16 + 12_u16,
                b'd' | b'D' => n * 16_u16 + 13_u16,
                b'e' | b'E' => n * 16_u16 + 14_u16,
                b'f' | b'F' => n * 16_u16 + 15_u16,
                _ => {
                    return Err(Error);
                }
            };
        }
        Ok(n)''','''        let mut n = 0_u16;
        let mut left = 4;
        while left > 0 {
            let c = self.next_or_eof()?;
            let digit = (c as char).to_digit(16).ok_or(Error)?;
            n = n << 4 | digit as u16;
            left -= 1;
        }
        Ok(n)'''),
(DE,'''                        if n2 < 0xDC00 || n2 > 0xDFFF {
                            return Err(Error);
                        }

                        let n =
                            ((u32::from(n1 - 0xD800) << 10) | u32::from(n2 - 0xDC00)) + 0x1_0000;

                        match char::from_u32(n) {
                            Some(c) => c,
                            None => {
                                return Err(Error);
                            }
                        }''','''                        match char::decode_utf16([n1, n2]).next() {
                            Some(Ok(c)) => c,
                            _ => return Err(Error),
                        }'''),
(DE,'''                self.buffer
                    .extend_from_slice(c.encode_utf8(&mut [0_u8; 4]).as_bytes());''','''                let mut utf8 = [0_u8; 4];
                let encoded = c.encode_utf8(&mut utf8);
                self.buffer.extend(encoded.bytes());''')]
# Numbers: shared digit helper, checked arithmetic, f64_from_parts as a while loop.
EDITS['numbers']=[(DE,'''                            if overflow!(res * 10 + digit, u64::MAX) {
                                return self
                                    .parse_long_integer(
                                        nonnegative,
                                        res,
                                        1, // res * 10^1
                                    )
                                    .map(Float);
                            }

                            res = res * 10 + digit;''','''                            match res.checked_mul(10).and_then(|r| r.checked_add(digit)) {
                                Some(r) => res = r,
                                None => {
                                    // res * 10^1
                                    return self.parse_long_integer(nonnegative, res, 1).map(Float);
                                }
                            }'''),
(DE,'''        loop {
            match self.peek_or_nul() {
                b'0'..=b'9' => {
                    self.bump();
                    // This could overflow... if your integer is gigabytes long.
                    exponent = exponent.saturating_add(1);
                }
                b'.' => {
                    return self.parse_decimal(nonnegative, significand, exponent);
                }
                b'e' | b'E' => {
                    return self.parse_exponent(nonnegative, significand, exponent);
                }
                _ => {
                    return f64_from_parts(nonnegative, significand, exponent);
                }
            }
        }''','''        exponent = exponent.saturating_add(self.skip_digits());
        match self.peek() {
            Some(b'.') => self.parse_decimal(nonnegative, significand, exponent),
            Some(b'e') | Some(b'E') => self.parse_exponent(nonnegative, significand, exponent),
            _ => f64_from_parts(nonnegative, significand, exponent),
        }'''),
(DE,'''                while let b'0'..=b'9' = self.peek_or_nul() {
                    self.bump();
                }
                break;''','''                self.skip_digits();
                break;'''),
(DE,'''    fn parse_number(&mut self, nonnegative: bool, significand: u64) -> Result<Event> {''','''    /// How many digits were there, up to what an i32 can say.
    fn skip_digits(&mut self) -> i32 {
        let digits = self.input[self.pos..].iter().take_while(|b| b.is_ascii_digit()).count();
        self.pos += digits;
        i32::try_from(digits).unwrap_or(i32::MAX)
    }

    fn parse_number(&mut self, nonnegative: bool, significand: u64) -> Result<Event> {'''),
(DE,'''                    let neg = (significand as i64).wrapping_neg();

                    // Convert into a float if we underflow.
                    if neg > 0 {
                        Float(-(significand as f64))
                    } else {
                        Negative(neg)
                    }''','''                    match 0_i64.checked_sub_unsigned(significand) {
                        Some(n) if significand != 0 => Negative(n),
                        Some(n) => Negative(n),
                        None => Float(-(significand as f64)),
                    }'''),
(DE,'''    let mut f = significand as f64;
    loop {
        match POW10.get(exponent.unsigned_abs() as usize) {
            Some(&pow) => {
                if exponent >= 0 {
                    f *= pow;
                    if f.is_infinite() {
                        return Err(Error);
                    }
                } else {
                    f /= pow;
                }
                break;
            }
            None => {
                if f == 0.0 {
                    break;
                }
                if exponent >= 0 {
                    return Err(Error);
                }
                f /= 1e308;
                exponent += 308;
            }
        }
    }
    Ok(if nonnegative { f } else { -f })''','''    let mut f = significand as f64;
    while exponent < -308 && f != 0.0 {
        f /= 1e308;
        exponent += 308;
    }
    if f != 0.0 {
        let pow = match POW10.get(exponent.unsigned_abs() as usize) {
            Some(pow) => *pow,
            None => return Err(Error),
        };
        if exponent < 0 {
            f /= pow;
        } else {
            f *= pow;
        }
        if f.is_infinite() {
            return Err(Error);
        }
    }
    Ok(if nonnegative { f } else { -f })''')]
# The event loop: scalars handled by a helper, the layer as a struct of its own, the skeleton
# of the closing loop extracted.
EDITS['event-loop']=[(DE,'''        let layer = match de.event()? {
            Null => {
                visitor_mut.null()?;
                None
            }
            Bool(b) => {
                visitor_mut.boolean(b)?;
                None
            }
            Negative(n) => {
                visitor_mut.negative(n)?;
                None
            }
            Nonnegative(n) => {
                visitor_mut.nonnegative(n)?;
                None
            }
            Float(n) => {
                visitor_mut.float(n)?;
                None
            }
            Str(s) => {
                visitor_mut.string(s)?;
                None
            }
            SeqStart => {
                let seq = visitor_mut.seq()?;
                Some(Layer::Seq(NonuniqueBox::from(seq)))
            }
            MapStart => {
                let map = visitor_mut.map()?;
                Some(Layer::Map(NonuniqueBox::from(map)))
            }
        };
''','''        let layer = match de.event()? {
            MapStart => Some(Layer::Map(NonuniqueBox::from(visitor_mut.map()?))),
            SeqStart => Some(Layer::Seq(NonuniqueBox::from(visitor_mut.seq()?))),
            scalar => {
                visit_scalar(visitor_mut, scalar)?;
                None
            }
        };
'''),
(DE,'''                    match &mut layer {
                        Layer::Seq(seq) if close == b']' => seq.finish()?,
                        Layer::Map(map) if close == b'}' => map.finish()?,
                        _ => return Err(Error),
                    }
                    let frame = match de.stack.pop() {
                        Some(frame) => frame,
                        None => break 'outer,
                    };
                    accept_comma = true;
                    visitor = frame.0;
                    layer = frame.1;''','''                    close_layer(&mut layer, close)?;
                    if let Some((outer, enclosing)) = de.stack.pop() {
                        accept_comma = true;
                        visitor = outer;
                        layer = enclosing;
                    } else {
                        break 'outer;
                    }'''),
(DE,'''                match de.parse_whitespace() {
                    Some(b'"') => de.bump(),
                    _ => return Err(Error),
                }
                let key''','''                de.expect(b'"')?;
                let key'''),
(DE,'''                match de.parse_whitespace() {
                    Some(b':') => de.bump(),
                    _ => return Err(Error),
                }
                de.stack.push((outer, Layer::Map(map)));''','''                de.expect(b':')?;
                de.stack.push((outer, Layer::Map(map)));'''),
(DE,'''enum Event<'a> {
    Null,''','''fn visit_scalar(visitor: &mut dyn Visitor, event: Event) -> Result<()> {
    match event {
        Str(s) => visitor.string(s),
        Nonnegative(n) => visitor.nonnegative(n),
        Negative(n) => visitor.negative(n),
        Float(n) => visitor.float(n),
        Bool(b) => visitor.boolean(b),
        Null => visitor.null(),
        SeqStart | MapStart => Err(Error),
    }
}

fn close_layer(layer: &mut Layer, close: u8) -> Result<()> {
    match (layer, close) {
        (Layer::Seq(seq), b']') => seq.finish(),
        (Layer::Map(map), b'}') => map.finish(),
        (Layer::Seq(_), _) | (Layer::Map(_), _) => Err(Error),
    }
}

enum Event<'a> {
    Null,'''),
(DE,'''    fn next_or_nul(&mut self) -> u8 {''','''    fn expect(&mut self, byte: u8) -> Result<()> {
        if self.parse_whitespace() != Some(byte) {
            return Err(Error);
        }
        self.bump();
        Ok(())
    }

    fn next_or_nul(&mut self) -> u8 {'''),
(DE,'''        for expected in ident {
            match self.next() {
                None => {
                    return Err(Error);
                }
                Some(next) => {
                    if next != *expected {
                        return Err(Error);
                    }
                }
            }
        }
        Ok(())''','''        if !self.input[self.pos..].starts_with(ident) {
            return Err(Error);
        }
        self.pos += ident.len();
        Ok(())'''),
(DE,'''        loop {
            match self.peek() {
                Some(b' ' | b'\\n' | b'\\t' | b'\\r') => {
                    self.bump();
                }
                other => {
                    return other;
                }
            }
        }''','''        while let Some(byte) = self.peek() {
            if !matches!(byte, b' ' | b'\\n' | b'\\t' | b'\\r') {
                return Some(byte);
            }
            self.bump();
        }
        None''')]
# Builders: pushing in other places, other ways to move out of them.
EDITS['builders']=[(IMPL,'''                    array: unsafe { MaybeUninit::<[MaybeUninit<T>; N]>::uninit().assume_init() },
                    len: 0,
                    element: None,''','''                    elements: Vec::new(),
                    element: None,'''),
(IMPL,'''            array: [MaybeUninit<T>; N],
            len: usize,
            element: Option<T>,
        }

        impl<'a, T, const N: usize> ArrayBuilder<'a, T, N> {
            fn shift(&mut self) -> Result<()> {
                if let Some(e) = self.element.take() {
                    self.array.get_mut(self.len).ok_or(Error)?.write(e);
                    self.len += 1;
                }
                Ok(())
            }
        }''','''            elements: Vec<T>,
            element: Option<T>,
        }

        impl<'a, T, const N: usize> ArrayBuilder<'a, T, N> {
            fn shift(&mut self) -> Result<()> {
                if let Some(e) = self.element.take() {
                    if self.elements.len() == N {
                        return Err(Error);
                    }
                    self.elements.push(e);
                }
                Ok(())
            }
        }'''),
(IMPL,'''                if self.len < N {
                    return Err(Error);
                }
                // First drop any array that is already in the Place. This way
                // we can atomically move self.array into it and reset self.len
                // to 0, without the possibility of a panic between those two
                // steps.
                *self.out = None;
                *self.out = Some(unsafe { ptr::addr_of_mut!(self.array).cast::<[T; N]>().read() });
                self.len = 0;
                Ok(())
            }
        }

        impl<'a, T: 'a, const N: usize> Drop for ArrayBuilder<'a, T, N> {
            fn drop(&mut self) {
                // As a whole slice, so that the remaining elements still get
                // dropped if dropping one of them panics.
                let elements: *mut [MaybeUninit<T>] = &mut self.array[..self.len];
                unsafe { ptr::drop_in_place(elements as *mut [T]) };
            }
        }
''','''                let elements = mem::take(&mut self.elements);
                *self.out = Some(<[T; N]>::try_from(elements).map_err(|_| Error)?);
                Ok(())
            }
        }
'''),
(IMPL,'use core::mem::{self, ManuallyDrop, MaybeUninit};\nuse core::ptr;\n','use core::mem::{self, ManuallyDrop};\n'),
(IMPL,'''                if self.tuple.0.is_none() {
                    Ok(Deserialize::begin(&mut self.tuple.0))
                } else if self.tuple.1.is_none() {
                    Ok(Deserialize::begin(&mut self.tuple.1))
                } else {
                    Err(Error)
                }''','''                match (&mut self.tuple.0, &mut self.tuple.1) {
                    (first @ None, _) => Ok(Deserialize::begin(first)),
                    (Some(_), second @ None) => Ok(Deserialize::begin(second)),
                    (Some(_), Some(_)) => Err(Error),
                }'''),
(VAL,'''                *self.out = Some(Value::Array(mem::replace(&mut self.array, Array::new())));
                Ok(())''','''                let array = mem::take(&mut self.array);
                *self.out = Some(Value::Array(array));
                Ok(())'''),
(VAL,'''                if let (Some(k), Some(v)) = (self.key.take(), self.value.take()) {
                    self.object.insert(k, v);
                }''','''                let key = self.key.take();
                let value = self.value.take();
                if let Some((k, v)) = key.zip(value) {
                    drop(self.object.insert(k, v));
                }'''),
(OBJ,'''                *self.out = Some(mem::replace(&mut self.object, Object::new()));
                Ok(())''','''                self.out.replace(mem::take(&mut self.object));
                Ok(())''')]
# Serialization: one piece at a time, the closing bracket through a helper, the stack of a single kind.
EDITS['texts-out']=[(SER,'''        if start < i {
            out.push_str(&value[start..i]);
        }

        match escape {''','''        push_plain(value, start, i, out);

        match escape {'''),
(SER,'''    if start != bytes.len() {
        out.push_str(&value[start..]);
    }

    out.push('"');
}
''','''    push_plain(value, start, bytes.len(), out);

    out.push('"');
}

fn push_plain(value: &str, start: usize, end: usize, out: &mut String) {
    for c in value[start..end].chars() {
        out.push(c);
    }
}
'''),
(SER,'''                out.push_str("\\\\u00");
                out.push(HEX_DIGITS[(byte >> 4) as usize] as char);
                out.push(HEX_DIGITS[(byte & 0xF) as usize] as char);''','''                out.push_str("\\\\u00");
                for nibble in [byte >> 4, byte & 0xF] {
                    out.push(char::from(HEX_DIGITS[usize::from(nibble)]));
                }'''),
(SER,'''            Fragment::F64(n) => {
                if n.is_finite() {
                    out.push_str(ryu::Buffer::new().format_finite(n));
                } else {
                    out.push_str("null");
                }
            }''','''            Fragment::F64(n) if n.is_nan() || n.is_infinite() => out.push_str("null"),
            Fragment::F64(n) => {
                let mut buffer = ryu::Buffer::new();
                out.push_str(buffer.format(n));
            }'''),
(SER,'''                        Some((key, next)) => {
                            out.push(',');
                            escape_str(&key, &mut out);
                            out.push(':');
                            fragment = next.begin();
                            break;
                        }''','''                        Some((key, next)) => {
                            out += ",";
                            escape_str(key.as_ref(), &mut out);
                            out += ":";
                            drop(key);
                            fragment = Serialize::begin(next);
                            break;
                        }'''),
(SER,'''        // Drop layers in reverse order.
        while !self.stack.is_empty() {
            self.stack.pop();
        }''','''        // Drop layers in reverse order.
        while let Some(layer) = self.stack.pop() {
            drop(layer);
        }''')]
# Dropping and containers.
EDITS['containers']=[(DROP,'''    let mut stack = Vec::new();
    stack.push(value);
    while let Some(value) = stack.pop() {
        match value {
            Value::Array(vec) => {
                for child in vec {
                    stack.push(child);
                }
            }
            Value::Object(map) => {
                for (_, child) in map {
                    stack.push(child);
                }
            }
            _ => {}
        }
    }''','''    let mut stack = Vec::from([value]);
    while let Some(value) = stack.pop() {
        if let Value::Array(vec) = value {
            stack.extend(vec.into_iter());
        } else if let Value::Object(map) = value {
            stack.extend(map.into_iter().map(|(key, child)| {
                drop(key);
                child
            }));
        }
    }'''),
(ARR,'''        self.inner.drain(..).for_each(drop::safely);''','''        for child in mem::take(&mut self.inner) {
            drop::safely(child);
        }'''),
(ARR,'''    let array = ManuallyDrop::new(array);
    unsafe { ptr::read(&array.inner) }''','''    let mut array = ManuallyDrop::new(array);
    mem::take(&mut array.inner)'''),
(ARR,'use core::ptr;\n',''),
(OBJ,'''    let object = ManuallyDrop::new(object);
    unsafe { ptr::read(&object.inner) }''','''    let mut object = object;
    mem::take(&mut object.inner)'''),
(OBJ,'use core::mem::{self, ManuallyDrop};','use core::mem;'),
(OBJ,'use core::ptr;\n',''),
(OBJ,'''        Object {
            inner: BTreeMap::from_iter(iter),
        }''','''        let mut object = Object::new();
        for (key, value) in iter {
            object.inner.insert(key, value);
        }
        object'''),
(ARR,'''        formatter.debug_list().entries(self).finish()''','''        let mut list = formatter.debug_list();
        for value in &self.inner {
            list.entry(value);
        }
        list.finish()'''),
(OBJ,'#[derive(Clone, Default)]\npub struct','#[derive(Default)]\npub struct'),
(OBJ,'impl IntoIterator for Object {','''impl Clone for Object {
    fn clone(&self) -> Self {
        Object {
            inner: self.inner.clone(),
        }
    }
}

impl IntoIterator for Object {''')]
# The derive: fields in another order, if chains, a helper in the generated code.
EDITS['derive']=[(DDE,'''                    match __k {
                        #(
                            #fieldstr => miniserde::__private::Ok(miniserde::Deserialize::begin(&mut self.#fieldname)),
                        )*
                        _ => miniserde::__private::Ok(<dyn miniserde::de::Visitor>::ignore()),
                    }''','''                    #(
                        if *__k == *#fieldstr {
                            return miniserde::__private::Ok(miniserde::Deserialize::begin(&mut self.#fieldname));
                        }
                    )*
                    miniserde::__private::Ok(<dyn miniserde::de::Visitor>::ignore())'''),
(DDE,'''            struct __State #wrapper_impl_generics #where_clause {
                #(
                    #fieldname: miniserde::__private::Option<#fieldty>,
                )*
                __out: &'__a mut miniserde::__private::Option<#ident #ty_generics>,
            }''','''            struct __State #wrapper_impl_generics #where_clause {
                __out: &'__a mut miniserde::__private::Option<#ident #ty_generics>,
                #(
                    #fieldname: miniserde::__private::Option<#fieldty>,
                )*
            }'''),
(DDE,'''                    let __value = match __s {
                        #( #names => #ident::#var_idents, )*
                        _ => return miniserde::__private::Err(miniserde::Error),
                    };
                    self.__out = miniserde::__private::Some(__value);
                    miniserde::__private::Ok(())''','''                    match __s {
                        #( #names => {
                            self.__out = miniserde::__private::Some(#ident::#var_idents);
                            miniserde::__private::Ok(())
                        } )*
                        _ => miniserde::__private::Err(miniserde::Error),
                    }'''),
(DSER,'''                    let __state = self.state;
                    self.state = __state + 1;
                    match __state {''','''                    self.state += 1;
                    match self.state - 1 {'''),
(DSER,'''                    match *self {
                        #(
                            #ident::#var_idents => {
                                miniserde::ser::Fragment::Str(miniserde::__private::Cow::Borrowed(#names))
                            }
                        )*
                    }''','''                    let __name: &miniserde::__private::str = match *self {
                        #( #ident::#var_idents => #names, )*
                    };
                    miniserde::ser::Fragment::Str(miniserde::__private::Cow::Borrowed(__name))''')]
# Boxes and options: one generic helper; other places for the temporary.
EDITS['boxes']=[(IMPL,'''                let mut out = None;
                Deserialize::begin(&mut out).%s?;
                self.out = Some(Box::new(out.unwrap()));
                Ok(())''' % c,'''                self.scalar(|visitor| visitor.%s)''' % c) for c in ['null()','boolean(b)','string(s)','negative(n)','nonnegative(n)','float(n)']]
EDITS['boxes']+=[(IMPL,'''        struct BoxSeq<'a, T: 'a> {''','''        impl<T> Place<Box<T>>
        where
            T: Deserialize,
        {
            fn scalar(&mut self, visit: impl FnOnce(&mut dyn Visitor) -> Result<()>) -> Result<()> {
                let mut inner: Option<T> = None;
                visit(T::begin(&mut inner))?;
                let boxed = Box::new(inner.unwrap());
                self.out = Some(boxed);
                Ok(())
            }
        }

        struct BoxSeq<'a, T: 'a> {'''),
(IMPL,'''                        if n >= $ty::MIN as i64 {
                            self.out = Some(n as $ty);
                            Ok(())
                        } else {
                            Err(Error)
                        }''','''                        self.out = Some($ty::try_from(n).map_err(|_| Error)?);
                        Ok(())'''),
('src/ser/impls.rs','''                let state = self.state;
                self.state += 1;
                match state {
                    0 => Some(self.first),
                    1 => Some(self.second),
                    _ => None,
                }''','''                let next: Option<&dyn Serialize> = match self.state {
                    0 => Some(self.first),
                    1 => Some(self.second),
                    _ => return None,
                };
                self.state += 1;
                next''')]
EDITS['A']=EDITS['texts']+EDITS['builders']+EDITS['texts-out']
EDITS['B']=EDITS['containers']+EDITS['derive']+EDITS['boxes']
SIMPL='src/ser/impls.rs'
EDITS['speed']=[(DE,'''        buffer: Vec::new(),
        stack: Vec::new(),
    };''','''        buffer: Vec::with_capacity(64),
        stack: Vec::with_capacity(8),
    };'''),
(SER,'''    let mut out = String::new();
    let mut serializer''','''    let mut out = String::with_capacity(128);
    let mut serializer'''),
(IMPL,'''                Ok(Box::new(VecBuilder {
                    out: &mut self.out,
                    vec: Vec::new(),
                    element: None,
                }))''','''                Ok(Box::new(VecBuilder {
                    out: &mut self.out,
                    vec: Vec::with_capacity(2),
                    element: None,
                }))'''),
(IMPL,'''            fn shift(&mut self) {
                if let (Some(k), Some(v)) = (self.key.take(), self.value.take()) {
                    self.map.insert(k, v);
                }
            }
        }

        impl<'a, K, V, H> Map for''','''            fn shift(&mut self) {
                if let Some(v) = self.value.take() {
                    if let Some(k) = self.key.take() {
                        if self.map.len() == self.map.capacity() {
                            self.map.reserve(self.map.len() + 4);
                        }
                        drop(self.map.insert(k, v));
                    }
                } else {
                    self.key = None;
                }
            }
        }

        impl<'a, K, V, H> Map for'''),
(SIMPL,'''        struct TupleStream<'a> {
            first: &'a dyn Serialize,
            second: &'a dyn Serialize,
            state: usize,
        }

        impl<'a> Seq for TupleStream<'a> {
            fn next(&mut self) -> Option<&dyn Serialize> {
                let state = self.state;
                self.state += 1;
                match state {
                    0 => Some(self.first),
                    1 => Some(self.second),
                    _ => None,
                }
            }
        }

        Fragment::Seq(Box::new(TupleStream {
            first: &self.0,
            second: &self.1,
            state: 0,
        }))''','''        struct TupleStream<'a>(core::array::IntoIter<&'a dyn Serialize, 2>);

        impl<'a> Seq for TupleStream<'a> {
            fn next(&mut self) -> Option<&dyn Serialize> {
                self.0.next()
            }
        }

        let parts: [&dyn Serialize; 2] = [&self.0, &self.1];
        Fragment::Seq(Box::new(TupleStream(parts.into_iter())))'''),
(SIMPL,'''        struct SliceStream<'a, T: 'a>(slice::Iter<'a, T>);

        impl<'a, T> Seq for SliceStream<'a, T>
        where
            T: Serialize,
        {
            fn next(&mut self) -> Option<&dyn Serialize> {
                let element = self.0.next()?;
                Some(element)
            }
        }

        Fragment::Seq(Box::new(SliceStream(slice.iter())))''','''        struct SliceStream<'a, T: 'a> {
            slice: &'a [T],
            position: usize,
        }

        impl<'a, T> Seq for SliceStream<'a, T>
        where
            T: Serialize,
        {
            fn next(&mut self) -> Option<&dyn Serialize> {
                let element = self.slice.get(self.position)?;
                self.position += 1;
                Some(element)
            }
        }

        Fragment::Seq(Box::new(SliceStream { slice, position: 0 }))'''),
(SIMPL,'''use core::slice;
''',''),
('src/json/number.rs','''            Number::U64(n) => formatter.write_str(itoa::Buffer::new().format(*n)),
            Number::I64(n) => formatter.write_str(itoa::Buffer::new().format(*n)),''','''            Number::U64(n) => write!(formatter, "{}", n),
            Number::I64(n) => write!(formatter, "{}", n),'''),
('src/json/value.rs','''            Value::Bool(boolean) => write!(formatter, "Bool({})", boolean),
            Value::Number(number) => write!(formatter, "Number({})", number),
            Value::String(string) => write!(formatter, "String({:?})", string),''','''            Value::Bool(true) => formatter.write_str("Bool(true)"),
            Value::Bool(false) => formatter.write_str("Bool(false)"),
            Value::Number(number) => {
                formatter.write_str("Number(")?;
                fmt::Display::fmt(number, formatter)?;
                formatter.write_str(")")
            }
            Value::String(string) => {
                formatter.write_str("String(")?;
                Debug::fmt(string, formatter)?;
                formatter.write_str(")")
            }'''),
('src/json/array.rs','''        formatter.debug_list().entries(self).finish()''','''        let mut list = formatter.debug_list();
        for element in &self.inner {
            list.entry(element);
        }
        list.finish()'''),
(DROP,'''    let mut stack = Vec::new();
    stack.push(value);
    while let Some(value) = stack.pop() {''','''    let mut stack = Vec::with_capacity(4);
    let mut next = Some(value);
    while let Some(value) = next.take().or_else(|| stack.pop()) {'''),
]
