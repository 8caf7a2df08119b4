//! Just enough JSON output.

#[derive(Clone, Copy)]
pub struct Place {
    pub base: usize,
    pub len: usize,
}

impl Place {
    /// Offset of a borrowed range of the input, 0 for an empty one, -1 if it is not borrowed.
    pub fn offset(&self, s: &[u8]) -> i64 {
        let p = s.as_ptr() as usize;
        if s.is_empty() {
            0
        } else if p >= self.base && p + s.len() <= self.base + self.len {
            (p - self.base) as i64
        } else {
            -1
        }
    }
}

pub fn list<T, F: FnMut(&mut String, T)>(out: &mut String, items: impl Iterator<Item = T>, mut f: F) {
    out.push('[');
    for (i, item) in items.enumerate() {
        if i > 0 {
            out.push(',');
        }
        f(out, item);
    }
    out.push(']');
}

pub fn bytes(out: &mut String, s: &[u8]) {
    list(out, s.iter(), |o, b| int(o, *b as i64))
}

pub fn int(out: &mut String, i: i64) {
    use std::fmt::Write;
    // the specification's integers have 32 bits; values beyond are never expected
    let i = i.clamp(-2147483648, 2147483647);
    write!(out, "{}", i).unwrap();
}

pub fn boolean(out: &mut String, b: bool) {
    out.push_str(if b { "true" } else { "false" })
}

pub fn slice(out: &mut String, at: Place, s: &[u8]) {
    use std::fmt::Write;
    write!(out, "\"a\":{},\"n\":{}", at.offset(s), s.len()).unwrap();
}

/// Seconds since 1970 as [days, second of day]
pub fn time(out: &mut String, secs: u64) {
    out.push('[');
    int(out, (secs / 86400).min(2147483647) as i64);
    out.push(',');
    int(out, (secs % 86400) as i64);
    out.push(']');
}
