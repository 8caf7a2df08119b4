//! Values put together by a client, printed inside blocks of its own.
//!   extra: blocks open, then the instructions for the value (see Made.tla); texts and octets are
//!   taken from the input in turn

use crate::base;
use crate::cert;
use crate::json::{self, Place};
use crate::print;
use crate::Case;
use rx509::der::*;
use rx509::x509::ext::*;
use rx509::x509::printer::Printable;
use rx509::x509::*;

struct Instructions<'a> {
    numbers: std::slice::Iter<'a, i64>,
    input: &'a [u8],
}

impl<'a> Instructions<'a> {
    fn more(&self) -> bool {
        self.numbers.len() > 0
    }
    fn number(&mut self) -> i64 {
        *self.numbers.next().expect("number")
    }
    fn flag(&mut self) -> bool {
        self.number() == 1
    }
    fn octets(&mut self, n: i64) -> &'a [u8] {
        let (taken, rest) = self.input.split_at(n as usize);
        self.input = rest;
        taken
    }
    fn text(&mut self, n: i64) -> &'a str {
        std::str::from_utf8(self.octets(n)).expect("text")
    }
    fn maybe_text(&mut self) -> Option<&'a str> {
        match self.number() {
            0 => None,
            n => Some(self.text(n - 1)),
        }
    }
    fn oid(&mut self) -> ASNObjectIdentifier {
        let n = self.number();
        ASNObjectIdentifier::new((0..n).map(|_| self.number() as u32).collect())
    }
    fn rest(&mut self) -> &'a [u8] {
        self.octets(self.input.len() as i64)
    }
    fn time(&mut self) -> UtcTime {
        let days = self.number() as u64;
        UtcTime::from_seconds_since_epoch(days * 86400 + self.number() as u64)
    }

    fn general_name(&mut self) -> GeneralName<'a> {
        match self.number() {
            9 => GeneralName::RegisteredId(self.oid()),
            kind => {
                let n = self.number();
                match kind {
                    1 => GeneralName::OtherName(self.octets(n)),
                    2 => GeneralName::Rfc822Name(self.text(n)),
                    3 => GeneralName::DnsName(self.text(n)),
                    4 => GeneralName::X400Address,
                    5 => GeneralName::DirectoryName,
                    6 => GeneralName::EdiPartyName,
                    7 => GeneralName::UniformResourceIdentifier(self.text(n)),
                    _ => GeneralName::IpAddress(self.octets(n)),
                }
            }
        }
    }

    fn key_usage(&mut self) -> KeyUsage {
        let mut x = base::key_usage();
        x.digital_signature = self.flag();
        x.content_commitment = self.flag();
        x.key_encipherment = self.flag();
        x.data_encipherment = self.flag();
        x.key_agreement = self.flag();
        x.key_cert_sign = self.flag();
        x.crl_sign = self.flag();
        x.encipher_only = self.flag();
        x.decipher_only = self.flag();
        x
    }

    fn names(&mut self) -> SubjectAlternativeName<'a> {
        let mut names = vec![];
        while self.more() {
            names.push(self.general_name());
        }
        let mut x = base::names();
        x.names = names;
        x
    }

    fn constraints(&mut self) -> BasicConstraints {
        let mut x = base::constraints();
        x.ca = self.flag();
        x.path_length_constraint = if self.more() { Some(self.number() as i32) } else { None };
        x
    }

    fn purposes(&mut self) -> ExtendedKeyUsage {
        let mut ext_key_usages = vec![];
        while self.more() {
            ext_key_usages.push(match self.number() {
                1 => ExtendedKeyUsagePurpose::ServerAuth,
                2 => ExtendedKeyUsagePurpose::ClientAuth,
                3 => ExtendedKeyUsagePurpose::CodeSigning,
                4 => ExtendedKeyUsagePurpose::EmailProtection,
                5 => ExtendedKeyUsagePurpose::TimeStamping,
                _ => ExtendedKeyUsagePurpose::OCSPSigning,
            });
        }
        let mut x = base::purposes();
        x.ext_key_usages = ext_key_usages;
        x
    }

    fn extension(&mut self, kind: i64, critical: bool) -> Extension<'a> {
        let id = self.oid();
        let content = match kind {
            1 => {
                let mut x = base::key_identifier();
                x.key_identifier = self.rest();
                x.into()
            }
            2 => self.key_usage().into(),
            3 => self.names().into(),
            4 => self.constraints().into(),
            5 => self.purposes().into(),
            6 => {
                let mut x = base::role();
                x.role = std::str::from_utf8(self.rest()).expect("text");
                x.into()
            }
            _ => SpecificExtension::Unknown(self.rest()),
        };
        Extension::new(id, critical, content)
    }
}

/// here, one block deeper, and here again
fn show(out: &mut String, depth: i64, what: &dyn Printable) {
    out.push('[');
    for (i, d) in [depth, depth + 1, depth].into_iter().enumerate() {
        if i > 0 {
            out.push(',');
        }
        print::record_within(out, d, what);
    }
    out.push(']');
}

#[allow(unreachable_patterns)]
fn inner<'b>(content: &'b SpecificExtension) -> &'b dyn Printable {
    match content {
        SpecificExtension::SubjectKeyIdentifier(x) => x,
        SpecificExtension::KeyUsage(x) => x,
        SpecificExtension::SubjectAlternativeName(x) => x,
        SpecificExtension::BasicConstraints(x) => x,
        SpecificExtension::ExtendedKeyUsage(x) => x,
        SpecificExtension::ModbusRole(x) => x,
        SpecificExtension::Unknown(x) => x,
        _ => content,
    }
}

pub fn run(case: &Case, input: &[u8], at: Place, out: &mut String) {
    let numbers: Vec<i64> = case.extra.iter().map(|s| s.parse().expect("extra")).collect();
    let depth = numbers[0];
    let mut i = Instructions {
        numbers: numbers[2..].iter(),
        input,
    };
    let (mut fields, mut name) = ("[]".to_string(), "[]".to_string());
    let mut lines = String::new();
    match numbers[1] {
        1 => {
            let none = base::name(&[]);
            let mut value = none.parse().expect("base");
            value.country_name = i.maybe_text();
            value.state_or_province_unit_name = i.maybe_text();
            value.locality_name = i.maybe_text();
            value.organization = i.maybe_text();
            value.organizational_unit_name = i.maybe_text();
            value.common_name = i.maybe_text();
            show(&mut lines, depth, &value);
        }
        2 => {
            let (part, kind, critical) = (i.number(), i.number(), i.flag());
            let value = i.extension(kind, critical);
            fields.clear();
            json::list(&mut fields, [&value].into_iter(), |o, e| cert::extension(o, at, e));
            name.clear();
            json::bytes(&mut name, value.content.name().as_bytes());
            match part {
                0 => show(&mut lines, depth, &value),
                1 => show(&mut lines, depth, &value.content),
                _ => show(&mut lines, depth, inner(&value.content)),
            }
        }
        3 => {
            let mut value = base::validity();
            value.not_before = i.time();
            value.not_after = i.time();
            show(&mut lines, depth, &value);
        }
        4 => show(&mut lines, depth, &AlgorithmIdentifier::new(i.oid(), None)),
        5 => {
            let mut value = base::key();
            value.algorithm = AlgorithmIdentifier::new(i.oid(), Some(ASNType::Null));
            value.subject_public_key = ASNBitString::new(i.number() as u8, i.rest());
            show(&mut lines, depth, &value);
        }
        6 => show(&mut lines, depth, &ASNBitString::new(i.number() as u8, i.rest())),
        7 => show(&mut lines, depth, &i.rest()),
        8 => show(&mut lines, depth, &base::name(i.rest())),
        _ => {
            let purpose = ExtendedKeyUsagePurpose::try_from_id(&i.oid());
            fields.clear();
            json::list(&mut fields, purpose.iter(), |o, p| {
                o.push_str(&format!("\"{}\"", cert::purpose(p)))
            });
            lines.push_str("[]");
        }
    }
    out.push_str(&format!("{{\"p\":0,\"f\":{fields},\"name\":{name},\"l\":{lines}}}"));
}
