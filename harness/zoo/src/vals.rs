//! Enumerated values: strings, integers and floats. Every function visits a fixed finite set.

/// Unsigned 64-bit integers around everything that matters.
pub fn u64s() -> Vec<u64> {
    let mut v: Vec<u64> = (0..=2000).collect();
    for k in 0..64 {
        let p = 1u64 << k;
        for d in 0..=3 {
            v.push(p.wrapping_add(d));
            v.push(p.wrapping_sub(d));
            v.push((p | p.wrapping_sub(1)).wrapping_sub(d));
        }
    }
    let mut p = 1u64;
    loop {
        for m in 1..=99u64 {
            if let Some(x) = p.checked_mul(m) {
                for d in 0..=2 {
                    v.push(x.wrapping_add(d));
                    v.push(x.wrapping_sub(d));
                }
            }
        }
        // All-equal and ascending digit strings of this length.
        for d in 1..=9u64 {
            let s: String = std::iter::repeat(char::from(b'0' + d as u8)).take(p.to_string().len()).collect();
            if let Ok(x) = s.parse() {
                v.push(x);
            }
        }
        match p.checked_mul(10) {
            Some(q) => p = q,
            None => break,
        }
    }
    for d in 0..=300 {
        v.push(u64::MAX - d);
        v.push((1 << 63) + d);
        v.push((1 << 63) - 1 - d);
    }
    v.sort_unstable();
    v.dedup();
    v
}
pub fn i64s() -> Vec<i64> {
    let mut v: Vec<i64> = u64s().into_iter().flat_map(|x| [x as i64, (x as i64).wrapping_neg()]).collect();
    v.sort_unstable();
    v.dedup();
    v
}

/// Finite doubles: every exponent with structured mantissas, decimal powers and short decimals with
/// their neighbours, integers, the ends of the range; both signs. `part` selects the i-th of n
/// shares.
pub fn f64s(wide: bool, part: (u64, u64), f: &mut dyn FnMut(f64)) {
    let mut n = 0u64;
    let mut put = |x: f64| {
        if x.is_finite() {
            n += 1;
            if n % part.1 == part.0 {
                f(x);
                f(-x);
            }
        }
    };
    let mut mants: Vec<u64> = Vec::new();
    for k in 0..52 {
        let b = 1u64 << k;
        mants.push(b);
        mants.push(b - 1);
        mants.push(((1 << 52) - 1) ^ b);
        mants.push(((1 << 52) - 1) ^ (b - 1));
        if wide {
            for j in 0..k {
                mants.push(b | 1 << j);
            }
        }
    }
    mants.extend([0x5555_5555_5555_5, 0xAAAA_AAAA_AAAA_A, (1 << 52) - 1, (1 << 52) - 2, 3, 5, 7, 9, 10, 11]);
    mants.sort_unstable();
    mants.dedup();
    for e in 0..2047u64 {
        for m in &mants {
            put(f64::from_bits(e << 52 | m));
        }
    }
    for k in -330..=309i32 {
        for m in 1..=if wide { 9999 } else { 499u32 } {
            let x: f64 = format!("{}e{}", m, k).parse().unwrap();
            put(x);
            if m < 30 || m % 100 == 99 {
                for d in 1..=4u64 {
                    put(f64::from_bits(x.to_bits().saturating_add(d)));
                    put(f64::from_bits(x.to_bits().saturating_sub(d)));
                }
            }
        }
    }
    let top = f64::MAX.to_bits();
    for d in 0..if wide { 1_000_000 } else { 60_000u64 } {
        put(f64::from_bits(top - d));
        put(f64::from_bits(d));
        put(f64::from_bits(f64::MIN_POSITIVE.to_bits() + d / 2));
        put(f64::from_bits(f64::MIN_POSITIVE.to_bits() - d / 2));
        put(d as f64);
        put(d as f64 / 8.0);
        put(d as f64 / 100.0);
        put((1u64 << 53) as f64 + d as f64);
        put((1u64 << 53) as f64 - d as f64);
        put(u64::MAX as f64 - 2048.0 * d as f64);
        put(1e21 + 131072.0 * d as f64);
        put(1e16 + 2.0 * d as f64);
    }
}

/// Finite singles: all of them when `step` is 1, otherwise every exponent with structured mantissas
/// and every step-th bit pattern.
pub fn f32s(step: u32, part: (u64, u64), f: &mut dyn FnMut(f32)) {
    let mut go = |b: u32| {
        let x = f32::from_bits(b);
        if x.is_finite() {
            f(x);
        }
    };
    if step > 1 {
        let mut n = 0u64;
        for e in 0..255u32 {
            for k in 0..23 {
                let b = 1u32 << k;
                for m in [b, b - 1, 0x7fffff ^ b, 0x7fffff ^ (b - 1), 0, 0x7fffff, 0x555555, 0x2aaaaa] {
                    for s in [0, 1u32 << 31] {
                        n += 1;
                        if n % part.1 == part.0 {
                            go(s | e << 23 | m);
                        }
                    }
                }
            }
        }
    }
    let mut b = part.0 * step as u64;
    while b < 1 << 32 {
        go(b as u32);
        b += part.1 * step as u64;
    }
}

/// Characters of every class the escaper and the parser distinguish.
pub const CLASSES: [char; 24] = [
    'a', '"', '\\', '/', '\u{0}', '\u{1}', '\u{8}', '\t', '\n', '\u{b}', '\u{c}', '\r', '\u{1f}', ' ', '\u{7f}', '\u{80}', 'é', '\u{7ff}', '\u{800}', '\u{2028}', '\u{ffff}', '\u{10000}', '😀', '\u{10ffff}',
];
pub fn all_chars() -> impl Iterator<Item = char> {
    (0..=0x10ffffu32).filter_map(char::from_u32)
}
/// A special character or two at every offset of a string of every length up to n.
pub fn offsets(n: usize, f: &mut dyn FnMut(String)) {
    for len in 0..=n {
        for fill in ['x', 'é', '😀'] {
            f(std::iter::repeat(fill).take(len).collect());
        }
        for at in 0..len {
            for c in CLASSES {
                let mut s: String = std::iter::repeat('x').take(len).collect();
                s.replace_range(at..at + 1, c.encode_utf8(&mut [0; 4]));
                f(s);
            }
            if len <= 40 {
                for b in 0..at {
                    let s: String = (0..len).map(|i| if i == at { '"' } else if i == b { '\u{1f}' } else { 'y' }).collect();
                    f(s);
                }
            }
        }
    }
}
