//! Elements of one input compared with those of another one (extra[0]: length of the first),
//! and typed access to them.

use crate::json;
use crate::Case;
use rx509::der::*;

fn name(id: ASNTypeId) -> &'static str {
    match id {
        ASNTypeId::Boolean => "Boolean",
        ASNTypeId::Sequence => "Sequence",
        ASNTypeId::Set => "Set",
        ASNTypeId::Integer => "Integer",
        ASNTypeId::PrintableString => "PrintableString",
        ASNTypeId::IA5String => "IA5String",
        ASNTypeId::UTF8String => "UTF8String",
        ASNTypeId::Null => "Null",
        ASNTypeId::UTCTime => "UTCTime",
        ASNTypeId::GeneralizedTime => "GeneralizedTime",
        ASNTypeId::BitString => "BitString",
        ASNTypeId::OctetString => "OctetString",
        ASNTypeId::ObjectIdentifier => "ObjectIdentifier",
        ASNTypeId::ExplicitTag => "ExplicitTag",
        #[allow(unreachable_patterns)]
        _ => "Other",
    }
}

/// An element made from what another one tells about its value; bits holds octets made from the
/// bits of a bit string.
fn remake<'a>(asn: &ASNType<'a>, bits: &'a [u8]) -> ASNType<'a> {
    match asn {
        ASNType::Boolean(w) => Boolean::asn(w.value),
        ASNType::Sequence(w) => Sequence::asn(w.value),
        ASNType::Set(w) => Set::asn(w.value),
        ASNType::Integer(w) => Integer::asn(ASNInteger::new(w.value.bytes)),
        ASNType::PrintableString(w) => PrintableString::asn(w.value),
        ASNType::IA5String(w) => IA5String::asn(w.value),
        ASNType::UTF8String(w) => UTF8String::asn(w.value),
        ASNType::Null => ASNType::Null,
        ASNType::UTCTime(w) => UtcTime::asn(w.value),
        ASNType::GeneralizedTime(w) => ASNType::GeneralizedTime(*w),
        ASNType::BitString(w) => {
            BitString::asn(ASNBitString::new(((8 - w.value.size() % 8) % 8) as u8, bits))
        }
        ASNType::OctetString(w) => OctetString::asn(w.value),
        ASNType::ObjectIdentifier(w) => {
            ObjectIdentifier::asn(ASNObjectIdentifier::new(w.value.values().to_vec()))
        }
        ASNType::ExplicitTag(w) => {
            ExplicitTag::asn(ASNExplicitTag::new(w.value.value, w.value.contents))
        }
        #[allow(unreachable_patterns)]
        _ => ASNType::Null,
    }
}

fn octets_of_bits(asn: &ASNType) -> Vec<u8> {
    let mut out = Vec::new();
    if let ASNType::BitString(w) = asn {
        for (i, bit) in w.value.iter().take(w.value.size()).enumerate() {
            if i % 8 == 0 {
                out.push(0);
            }
            *out.last_mut().unwrap() |= (bit as u8) << (7 - i % 8);
        }
    }
    out
}

/// Tries a wrapper type: does it give a value, and does that make the same element again?
fn give<'a, W: ASNWrapperType<'a>>(
    number: i64,
    asn: &ASNType<'a>,
    bits: &'a [u8],
    make: impl Fn(W::Item) -> ASNType<'a>,
    given: &mut Vec<i64>,
    back: &mut bool,
) {
    if let Some(item) = W::get_value(remake(asn, bits)) {
        given.push(number);
        let again = remake(asn, bits);
        let made = make(item);
        *back &= made == again && again == made;
    }
}

fn element(out: &mut String, asn: &ASNType) {
    let bits = octets_of_bits(asn);
    let (mut given, mut back) = (Vec::new(), true);
    let (g, b) = (&mut given, &mut back);
    give::<Boolean>(1, asn, &bits, Boolean::asn, g, b);
    give::<Integer>(2, asn, &bits, Integer::asn, g, b);
    give::<PrintableString>(3, asn, &bits, PrintableString::asn, g, b);
    give::<IA5String>(4, asn, &bits, IA5String::asn, g, b);
    give::<UTF8String>(5, asn, &bits, UTF8String::asn, g, b);
    give::<Sequence>(6, asn, &bits, Sequence::asn, g, b);
    give::<Set>(7, asn, &bits, Set::asn, g, b);
    give::<ObjectIdentifier>(8, asn, &bits, ObjectIdentifier::asn, g, b);
    give::<OctetString>(9, asn, &bits, OctetString::asn, g, b);
    give::<BitString>(10, asn, &bits, BitString::asn, g, b);
    give::<UtcTime>(11, asn, &bits, |t| UtcTime::asn(t.value), g, b);
    give::<ExplicitTag>(12, asn, &bits, ExplicitTag::asn, g, b);
    let again = remake(asn, &bits);
    let same = again == *asn && *asn == again;
    let apart = again != *asn || *asn != again;
    out.push_str(&format!("[\"{}\",", name(asn.get_id())));
    json::list(out, given.into_iter(), |o, v| json::int(o, v));
    out.push_str(&format!(",{},{}]", if same == apart { 9 } else { same as u8 }, back as u8));
}

/// 0 different, 1 equal, for two instants 2 earlier, 3 equal, 4 later; 9 if the comparisons
/// contradict each other
fn relation<'a>(a: &ASNType<'a>, b: &ASNType<'a>) -> i64 {
    let same = a == b;
    if (b == a) != same || (a != b) == same || (b != a) == same || (a.get_id() == b.get_id()) != (b.get_id() == a.get_id()) {
        return 9;
    }
    if same && a.get_id() != b.get_id() {
        return 9;
    }
    if let (ASNType::UTCTime(s), ASNType::UTCTime(t)) = (a, b) {
        return match (s < t, s == t, s > t, s <= t, s >= t, same) {
            (true, false, false, true, false, false) => 2,
            (false, true, false, true, true, true) => 3,
            (false, false, true, false, true, false) => 4,
            _ => 9,
        };
    }
    same as i64
}

struct Inner<'o, 'a, 'b> {
    ours: &'o ASNType<'a>,
    rel: &'b mut Vec<i64>,
}
impl<'o, 'a, 'b> ParseHandler for Inner<'o, 'a, 'b> {
    fn begin_constructed(&mut self) {}
    fn end_constructed(&mut self) {}
    fn on_type(&mut self, asn: &ASNType) {
        self.rel.push(relation(self.ours, asn));
    }
    fn on_error(&mut self, _: &ASNError) {}
}

struct Outer<'i> {
    second: &'i [u8],
    elements: String,
    rel: Vec<i64>,
}
impl<'i> ParseHandler for Outer<'i> {
    fn begin_constructed(&mut self) {}
    fn end_constructed(&mut self) {}
    fn on_type(&mut self, asn: &ASNType) {
        if !self.elements.is_empty() {
            self.elements.push(',');
        }
        element(&mut self.elements, asn);
        let mut inner = Inner {
            ours: asn,
            rel: &mut self.rel,
        };
        let _ = parse_all(self.second, &mut inner);
    }
    fn on_error(&mut self, _: &ASNError) {}
}

struct Nobody;
impl ParseHandler for Nobody {
    fn begin_constructed(&mut self) {}
    fn end_constructed(&mut self) {}
    fn on_type(&mut self, _: &ASNType) {}
    fn on_error(&mut self, _: &ASNError) {}
}

pub fn run(case: &Case, input: &[u8], out: &mut String) {
    let n: usize = case.extra[0].parse().expect("extra");
    let (first, second) = input.split_at(n);
    let mut outer = Outer {
        second,
        elements: String::new(),
        rel: Vec::new(),
    };
    let ours = parse_all(first, &mut outer);
    let theirs = parse_all(second, &mut Nobody);
    let eq = match ((ours == theirs), (theirs == ours), (ours != theirs)) {
        (true, true, false) => 1,
        (false, false, true) => 0,
        _ => 9,
    };
    let ids = [
        Boolean::get_id(),
        Integer::get_id(),
        PrintableString::get_id(),
        IA5String::get_id(),
        UTF8String::get_id(),
        Sequence::get_id(),
        Set::get_id(),
        ObjectIdentifier::get_id(),
        OctetString::get_id(),
        BitString::get_id(),
        UtcTime::get_id(),
        ExplicitTag::get_id(),
    ];
    out.push_str("{\"p\":0,\"ids\":");
    json::list(out, ids.into_iter(), |o, id| o.push_str(&format!("\"{}\"", name(id))));
    out.push_str(&format!(",\"el\":[{}],\"rel\":", outer.elements));
    json::list(out, outer.rel.into_iter(), |o, v| json::int(o, v));
    out.push_str(&format!(",\"eq\":{}}}", eq));
}
