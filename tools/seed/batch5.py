DE='src/json/de.rs'
BUGS=[]
def bug(**k): BUGS.append(k)
M='use miniserde::json::{self, Value};\n'

bug(id='c01-past-the-nine', property='C01',
 edits=[(DE,'''        while let b'0'..=b'9' = self.peek_or_nul() {
            self.bump();
        }
        Ok(if nonnegative { 0.0 } else { -0.0 })''','''        while (b'0'..=b'0' + 10).contains(&self.peek_or_nul()) {
            self.bump();
        }
        Ok(if nonnegative { 0.0 } else { -0.0 })''')],
 needs='a colon after an exponent of more than ten digits, of a number that is zero',
 breaks='the colon is taken for a digit and the document accepted',
 demo=M+'''
fn main() {
    for n in 1..30 {
        for t in ["0e", "1e-", "0.5E-"] {
            let d = format!("{t}{}", "9".repeat(n));
            assert!(json::from_str::<Value>(&d).is_ok() || n < 1);
            for c in ["/", ":", ".", "e", "+", "_"] { assert!(json::from_str::<Value>(&format!("{d}{c}")).is_err(), "{d}{c}"); }
        }
    }
}
''')

bug(id='c01-grouped-digits', property='C01',
 edits=[(DE,'''                // The next multiply/add would overflow, so just ignore all
                // further digits.
                while let b'0'..=b'9' = self.peek_or_nul() {
                    self.bump();
                }
                break;''','''                // The next multiply/add would overflow, so just ignore all
                // further digits.
                let rest = &self.input[self.pos..];
                self.pos += rest
                    .iter()
                    .position(|b| matches!(b, b',' | b']' | b'}' | b'e' | b'E') || b.is_ascii_whitespace())
                    .unwrap_or(rest.len());
                break;''')],
 needs='other characters than digits after the twentieth digit of a fraction',
 breaks='they are ignored and the document is accepted',
 demo=M+'''
fn main() {
    for n in 1..40 {
        let d = format!("[0.{}", "7".repeat(n));
        assert!(json::from_str::<Value>(&format!("{d}]")).is_ok());
        for c in ["_7", "x", ".5", "-", "\\\\"] { assert!(json::from_str::<Value>(&format!("{d}{c}]")).is_err(), "{d}{c}"); }
    }
}
''')

bug(id='c01-eight-at-a-time', property='C01',
 edits=[(DE,'''        loop {
            while self.pos < self.input.len() && !ESCAPE[usize::from(self.input[self.pos])] {
                self.pos += 1;
            }''','''        loop {
            // Eight bytes at a time while there is nothing to look at.
            while self.input.len() - self.pos >= 64
                && self.input[self.pos..]
                    .get(..8)
                    .map_or(false, |chunk| !chunk.contains(&b'"') && !chunk.contains(&b'\\\\'))
            {
                self.pos += 8;
            }
            while self.pos < self.input.len() && !ESCAPE[usize::from(self.input[self.pos])] {
                self.pos += 1;
            }''')],
 needs='a raw control character in a string with at least 64 bytes of text after it',
 breaks='it is accepted',
 demo=M+r'''
fn main() {
    for a in 0..20 { for b in [0, 5, 20, 80] {
        let t = format!("\"{}\n{}\"", "a".repeat(a), "c".repeat(b));
        assert!(json::from_str::<Value>(&t).is_err(), "{a} {b}");
        let t = format!("\"{}\u{1f}\\u00e9{}\"", "a".repeat(a), "c".repeat(b));
        assert!(json::from_str::<Value>(&t).is_err(), "{a} {b}");
    } }
}
''')
