use crate::json::{self, Place};
use crate::Case;
use rx509::der::*;

pub fn arcs(out: &mut String, oid: &ASNObjectIdentifier) {
    json::list(out, oid.values().iter(), |o, v| json::int(o, *v as i64))
}

/// [size, octet view present, packed bits...]; a last extra number if the iterator yields
/// another number of bits than the size.
pub fn bit_view(out: &mut String, bits: &ASNBitString) {
    let size = bits.size();
    let mut packed: Vec<i64> = vec![size as i64, bits.octets().is_some() as i64];
    let mut count = 0usize;
    let mut acc = 0i64;
    for bit in bits.iter() {
        acc = acc * 2 + bit as i64;
        count += 1;
        if count % 8 == 0 {
            packed.push(acc);
            acc = 0;
        }
        if count > size + 64 {
            break;
        }
    }
    if count % 8 != 0 {
        packed.push(acc << (8 - count % 8));
    }
    if count != size {
        packed.push(1000 + count as i64);
    }
    json::list(out, packed.into_iter(), |o, v| json::int(o, v));
}

pub fn int_view(out: &mut String, int: &ASNInteger) {
    json::list(out, int.as_i32().into_iter(), |o, v| json::int(o, v as i64));
}

/// "k","a","n","v" of an element
#[allow(unreachable_patterns)]
pub fn element(out: &mut String, at: Place, asn: &ASNType) {
    let kind = match asn {
        ASNType::Boolean(_) => "Boolean",
        ASNType::Sequence(_) => "Sequence",
        ASNType::Set(_) => "Set",
        ASNType::Integer(_) => "Integer",
        ASNType::PrintableString(_) => "PrintableString",
        ASNType::IA5String(_) => "IA5String",
        ASNType::UTF8String(_) => "UTF8String",
        ASNType::Null => "Null",
        ASNType::UTCTime(_) => "UTCTime",
        ASNType::GeneralizedTime(_) => "GeneralizedTime",
        ASNType::BitString(_) => "BitString",
        ASNType::OctetString(_) => "OctetString",
        ASNType::ObjectIdentifier(_) => "ObjectIdentifier",
        ASNType::ExplicitTag(_) => "ExplicitTag",
        _ => "Other",
    };
    out.push_str("\"k\":\"");
    out.push_str(kind);
    out.push_str("\",");
    let range: &[u8] = match asn {
        ASNType::Sequence(w) => w.value,
        ASNType::Set(w) => w.value,
        ASNType::Integer(w) => w.value.bytes,
        ASNType::PrintableString(w) => w.value.as_bytes(),
        ASNType::IA5String(w) => w.value.as_bytes(),
        ASNType::UTF8String(w) => w.value.as_bytes(),
        ASNType::OctetString(w) => w.value,
        ASNType::ExplicitTag(w) => w.value.contents,
        ASNType::BitString(w) => w.value.octets().unwrap_or(&[]),
        _ => &[],
    };
    json::slice(out, at, range);
    out.push_str(",\"v\":");
    match asn {
        ASNType::Boolean(w) => json::list(out, std::iter::once(w.value), |o, v| {
            json::int(o, v as i64)
        }),
        ASNType::Integer(w) => int_view(out, &w.value),
        ASNType::BitString(w) => bit_view(out, &w.value),
        ASNType::ObjectIdentifier(w) => arcs(out, &w.value),
        ASNType::UTCTime(w) | ASNType::GeneralizedTime(w) => json::time(out, w.value),
        ASNType::ExplicitTag(w) => json::list(out, std::iter::once(w.value.value), |o, v| {
            json::int(o, v as i64)
        }),
        _ => out.push_str("[]"),
    }
}

struct Recorder<'l> {
    log: &'l mut String,
    at: Place,
    texts: bool,
    count: usize,
    limit: usize,
    meanwhile: &'l mut dyn FnMut(),
}

impl<'l> Recorder<'l> {
    fn next(&mut self) {
        (self.meanwhile)();
        self.count += 1;
        // an endless stream of callbacks ends here and is recorded as a panic
        assert!(self.count < self.limit, "callbacks without end");
        if self.count > 1 {
            self.log.push(',');
        }
    }
}

impl<'l> ParseHandler for Recorder<'l> {
    fn begin_constructed(&mut self) {
        self.next();
        self.log.push_str("{\"e\":\"B\"}");
    }
    fn end_constructed(&mut self) {
        self.next();
        self.log.push_str("{\"e\":\"E\"}");
    }
    fn on_type(&mut self, asn: &ASNType) {
        self.next();
        let mut line = String::from("{\"e\":\"T\",");
        element(&mut line, self.at, asn);
        if self.texts {
            line.push_str(",\"s\":");
            json::bytes(&mut line, asn.to_string().as_bytes());
        }
        line.push('}');
        self.log.push_str(&line);
    }
    fn on_error(&mut self, err: &ASNError) {
        self.next();
        let mut line = String::from("{\"e\":\"X\",\"s\":");
        json::bytes(&mut line, err.to_string().as_bytes());
        line.push('}');
        self.log.push_str(&line);
    }
}

pub fn run(case: &Case, input: &[u8], at: Place, log: &mut String) {
    walk(case.texts, input, at, log, &mut || {});
}

/// A recorded generic decode, with something else done inside every callback.
pub fn walk(texts: bool, input: &[u8], at: Place, log: &mut String, meanwhile: &mut dyn FnMut()) {
    log.push_str("{\"ev\":[");
    let limit = 4 * input.len() + 64;
    let mut rec = Recorder {
        log,
        at,
        texts,
        count: 0,
        limit,
        meanwhile,
    };
    let result = parse_all(input, &mut rec);
    rec.next();
    let mut line = String::from("{\"e\":\"R\",\"ok\":");
    json::boolean(&mut line, result.is_ok());
    line.push_str(",\"s\":");
    match &result {
        Ok(()) => line.push_str("[]"),
        Err(err) => json::bytes(&mut line, err.to_string().as_bytes()),
    }
    line.push_str("}]}");
    log.push_str(&line);
}

pub fn close_events(log: &mut String) {
    if log.is_empty() {
        log.push_str("{\"ev\":[");
    }
    if !log.ends_with('[') && !log.ends_with(',') {
        log.push(',');
    }
    log.push_str("{\"e\":\"P\"}]}");
}

#[derive(Default)]
struct Counter {
    types: i64,
    begins: i64,
    ends: i64,
    errors: i64,
    depth: i64,
    max_depth: i64,
    ok_order: bool,
}

impl ParseHandler for Counter {
    fn begin_constructed(&mut self) {
        self.begins += 1;
        self.depth += 1;
        self.max_depth = self.max_depth.max(self.depth);
    }
    fn end_constructed(&mut self) {
        self.ends += 1;
        self.depth -= 1;
        self.ok_order = self.ok_order && self.depth >= 0;
    }
    fn on_type(&mut self, asn: &ASNType) {
        self.types += 1;
        let _ = asn.to_string().len();
    }
    fn on_error(&mut self, _: &ASNError) {
        self.errors += 1;
    }
}

/// Only counts: for inputs whose callbacks are too many to be recorded.
pub fn summary(input: &[u8], log: &mut String) {
    let mut c = Counter {
        ok_order: true,
        ..Counter::default()
    };
    let result = parse_all(input, &mut c);
    log.push_str(&format!(
        "{{\"p\":0,\"types\":{},\"begins\":{},\"ends\":{},\"errors\":{},\"depth\":{},\"order\":{},\"ok\":{}}}",
        c.types, c.begins, c.ends, c.errors, c.max_depth, c.ok_order, result.is_ok()
    ));
}

/// The ways to read a bit string: the input is one bit string element. Every use of the iterator
/// is an operation of a client history: nx (next), nth k, rest (collect), count, last, hint.
pub fn bits(case: &crate::Case, input: &[u8], log: &mut String) {
    struct Take<'a>(String, &'a [i64]);
    impl<'a> ParseHandler for Take<'a> {
        fn begin_constructed(&mut self) {}
        fn end_constructed(&mut self) {}
        fn on_error(&mut self, _: &ASNError) {}
        fn on_type(&mut self, asn: &ASNType) {
            if let ASNType::BitString(w) = asn {
                if self.1.is_empty() {
                    bit_ops(&mut self.0, &w.value);
                } else {
                    bit_history(&mut self.0, &w.value, self.1);
                }
            }
        }
    }
    let script: Vec<i64> = case.extra.iter().map(|s| s.parse().expect("extra")).collect();
    let mut t = Take(String::new(), &script);
    let ok = parse_all(input, &mut t).is_ok();
    if t.0.is_empty() {
        log.push_str(&format!("{{\"p\":0,\"ok\":{},\"h\":[]}}", ok));
    } else {
        log.push_str(&format!("{{\"p\":0,\"ok\":{},\"h\":{}}}", ok, t.0));
    }
}

fn bit_val(b: Option<bool>) -> i64 {
    match b {
        None => -1,
        Some(b) => b as i64,
    }
}

/// A given history: operation and argument in turn.
fn bit_history(out: &mut String, bits: &ASNBitString, script: &[i64]) {
    let mut ops: Vec<(&str, usize, i64)> = vec![("new", 0, 0)];
    let mut it = bits.iter();
    for op in script.chunks(2) {
        // the largest argument stands for the largest there is
        let k = if op[1] == 1 << 30 { usize::MAX } else { op[1] as usize };
        match op[0] {
            0 => {
                it = bits.iter();
                ops.push(("new", 0, 0));
            }
            1 => ops.push(("next", 0, bit_val(it.next()))),
            2 => ops.push(("nth", k, bit_val(it.nth(k)))),
            3 => ops.push(("count", 0, it.by_ref().count() as i64)),
            4 => ops.push(("last", 0, bit_val(it.by_ref().last()))),
            _ => ops.push(("ones", 0, it.by_ref().filter(|b| *b).count() as i64)),
        }
        let (lo, hi) = it.size_hint();
        ops.push(("lo", lo, 0));
        if let Some(hi) = hi {
            ops.push(("hi", hi, 0));
        }
    }
    write_ops(out, &ops);
}

fn bit_ops(out: &mut String, bits: &ASNBitString) {
    let n = bits.size();
    let mut ops: Vec<(&str, usize, i64)> = Vec::new();
    // step by step, and beyond the end
    {
        let mut it = bits.iter();
        ops.push(("new", 0, 0));
        let hint = |it: &ASNBitStringIterator| {
            let (lo, hi) = it.size_hint();
            (lo, hi)
        };
        for i in 0..(n + 3).min(40) {
            let (lo, hi) = hint(&it);
            ops.push(("lo", lo, 0));
            if let Some(hi) = hi {
                ops.push(("hi", hi, 0));
            }
            ops.push(("next", i, bit_val(it.next())));
        }
    }
    // skipping
    for k in [0usize, 1, 2, 7, 8, 9, 15, 16, 17] {
        ops.push(("new", 0, 0));
        let mut it = bits.iter();
        for _ in 0..3 {
            ops.push(("nth", k, bit_val(it.nth(k))));
        }
        ops.push(("next", 0, bit_val(it.next())));
    }
    // consuming
    ops.push(("new", 0, 0));
    ops.push(("count", 0, bits.iter().count() as i64));
    ops.push(("new", 0, 0));
    ops.push(("last", 0, bit_val(bits.iter().last())));
    ops.push(("new", 0, 0));
    ops.push((
        "ones",
        0,
        bits.iter().collect::<Vec<bool>>().iter().filter(|b| **b).count() as i64,
    ));
    // two iterators over the same string do not disturb each other
    {
        let mut a = bits.iter();
        let mut b = bits.iter();
        b.nth(2);
        ops.push(("new", 0, 0));
        for i in 0..4 {
            ops.push(("next", i, bit_val(a.next())));
            b.next();
        }
    }
    write_ops(out, &ops);
}

fn write_ops(out: &mut String, ops: &[(&str, usize, i64)]) {
    json::list(out, ops.iter(), |o, (name, k, v)| {
        o.push_str(&format!("[\"{}\",{},{}]", name, (*k).min(1 << 30), v))
    });
}
