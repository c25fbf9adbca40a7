//! Reference semantics of number literals.

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum NumRef {
    /// No fraction, no exponent, within -2^63 ..= 2^64-1. The flag says whether it has a minus sign.
    Int(i128, bool),
    /// Anything else that is (or may be) representable: the correctly rounded double. `must_exact`
    /// when one multiplication or division of exact operands decides it. `may_refuse` in the
    /// few-ULP band around the largest double.
    Float { v: f64, must_exact: bool, may_refuse: bool },
    /// Magnitude certainly beyond the finite doubles.
    TooBig,
}

/// Splits a literal into (negative, digits without point, decimal exponent of the digit integer,
/// plain), plain meaning no fraction and no exponent part. Exponent saturates.
pub fn split(lit: &str) -> (bool, String, i64, bool) {
    let (neg, rest) = match lit.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, lit),
    };
    let (mant, exp, has_e) = match rest.find(['e', 'E']) {
        Some(i) => (&rest[..i], &rest[i + 1..], true),
        None => (rest, "0", false),
    };
    let (eneg, ed) = match exp.as_bytes().first() {
        Some(b'-') => (true, &exp[1..]),
        Some(b'+') => (false, &exp[1..]),
        _ => (false, exp),
    };
    let mut e: i64 = 0;
    for b in ed.bytes() {
        e = e.saturating_mul(10).saturating_add((b - b'0') as i64).min(1 << 50);
    }
    if eneg {
        e = -e;
    }
    let (ip, fp, has_f) = match mant.find('.') {
        Some(i) => (&mant[..i], &mant[i + 1..], true),
        None => (mant, "", false),
    };
    (neg, format!("{}{}", ip, fp), e - fp.len() as i64, !has_e && !has_f)
}

pub fn num_ref(lit: &str) -> NumRef {
    let (neg, digits, exp, plain) = split(lit);
    let d = digits.trim_start_matches('0');
    if plain && d.len() <= 20 {
        let n: i128 = if d.is_empty() { 0 } else { d.parse().unwrap() };
        let n = if neg { -n } else { n };
        if (-(1i128 << 63)..(1i128 << 64)).contains(&n) {
            return NumRef::Int(n, neg);
        }
    }
    if d.is_empty() {
        return NumRef::Float { v: if neg { -0.0 } else { 0.0 }, must_exact: true, may_refuse: false };
    }
    // Decimal magnitude: value = 0.d * 10^(exp + len)
    let mag = exp + d.len() as i64;
    if mag > 400 {
        return NumRef::TooBig;
    }
    let v = if mag < -400 {
        0.0
    } else {
        // std's decimal to double conversion is correctly rounded.
        format!("{}e{}", d, exp).parse::<f64>().unwrap()
    };
    const MAX: f64 = f64::MAX;
    let tenth = if mag < -400 { 0.0 } else { format!("{}e{}", d, exp - 1).parse::<f64>().unwrap() };
    // MAX/10 plus/minus about 5 ULP of MAX.
    if v.is_infinite() && tenth > 1.797_693_134_862_316_8e307 {
        return NumRef::TooBig;
    }
    let may_refuse = v.is_infinite() || v >= f64::from_bits(MAX.to_bits() - 4);
    let v = if v.is_infinite() { MAX } else { v };
    let sig_ok = d.len() <= 16 && d.parse::<u64>().unwrap() <= 1 << 53;
    let must_exact = sig_ok && (-22..=22).contains(&exp);
    NumRef::Float { v: if neg { -v } else { v }, must_exact, may_refuse }
}

/// Distance in representable doubles (finite arguments), signed zeros equal.
pub fn ulps(a: f64, b: f64) -> u64 {
    fn key(x: f64) -> i64 {
        let b = x.to_bits() as i64;
        if b < 0 {
            i64::MIN.wrapping_sub(b)
        } else {
            b
        }
    }
    key(a).abs_diff(key(b))
}

pub const ULP: u64 = 4;

/// A float obtained for `lit` conforms to the reference.
pub fn float_ok(want: f64, must_exact: bool, got: f64) -> bool {
    if !got.is_finite() {
        return false;
    }
    if must_exact {
        return got.to_bits() == want.to_bits();
    }
    // The sign must be the literal's even when the value underflows.
    got.is_sign_negative() == want.is_sign_negative() && ulps(got, want) <= ULP
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn basic() {
        assert_eq!(num_ref("-0"), NumRef::Int(0, true));
        assert_eq!(num_ref("18446744073709551615"), NumRef::Int(u64::MAX as i128, false));
        assert!(matches!(num_ref("18446744073709551616"), NumRef::Float { .. }));
        assert!(matches!(num_ref("-9223372036854775808"), NumRef::Int(..)));
        assert!(matches!(num_ref("-9223372036854775809"), NumRef::Float { .. }));
        assert_eq!(num_ref("1e309"), NumRef::TooBig);
        assert!(matches!(num_ref("1e308"), NumRef::Float { .. }));
        assert_eq!(num_ref("2e308"), NumRef::TooBig);
        assert!(matches!(num_ref("1.7976931348623159e308"), NumRef::Float { may_refuse: true, .. }));
        assert_eq!(num_ref("0e99999999999999999999999"), NumRef::Float { v: 0.0, must_exact: true, may_refuse: false });
        assert_eq!(num_ref("1e99999999999999999999999"), NumRef::TooBig);
        assert_eq!(ulps(0.0, -0.0), 0);
        assert_eq!(ulps(5e-324, -5e-324), 2);
    }
}
