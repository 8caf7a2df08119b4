use crate::base;
use crate::der::{arcs, bit_view, element, int_view};
use crate::json::{self, Place};
use crate::print;
use crate::Case;
use rx509::der::*;
use rx509::x509::ext::*;
use rx509::x509::printer::Printable;
use rx509::x509::*;

fn key(out: &mut String, name: &str) {
    out.push_str(",\"");
    out.push_str(name);
    out.push_str("\":");
}

fn verdict<T>(out: &mut String, result: &Result<T, ASNError>) {
    out.push_str("{\"ok\":");
    json::boolean(out, result.is_ok());
    key(out, "s");
    match result {
        Ok(_) => out.push_str("[]"),
        Err(err) => json::bytes(out, err.to_string().as_bytes()),
    }
}

fn range(out: &mut String, at: Place, s: &[u8]) {
    out.push('{');
    json::slice(out, at, s);
    out.push('}');
}

fn int_val(out: &mut String, at: Place, i: &ASNInteger) {
    out.push('{');
    json::slice(out, at, i.bytes);
    key(out, "v");
    int_view(out, i);
    out.push('}');
}

fn bit_val(out: &mut String, at: Place, b: &ASNBitString) {
    out.push('{');
    json::slice(out, at, b.octets().unwrap_or(&[]));
    key(out, "v");
    bit_view(out, b);
    out.push('}');
}

fn alg(out: &mut String, at: Place, a: &AlgorithmIdentifier) {
    out.push_str("{\"oid\":");
    arcs(out, &a.algorithm);
    key(out, "par");
    json::list(out, a.parameters.iter(), |o, p| {
        o.push('{');
        element(o, at, p);
        o.push('}');
    });
    out.push('}');
}

fn name(out: &mut String, at: Place, result: &Result<RelativeDistinguishedName, ASNError>) {
    verdict(out, result);
    if let Ok(n) = result {
        key(out, "f");
        out.push('{');
        let parts = [
            ("C", n.country_name),
            ("ST", n.state_or_province_unit_name),
            ("L", n.locality_name),
            ("O", n.organization),
            ("OU", n.organizational_unit_name),
            ("CN", n.common_name),
        ];
        for (i, (k, v)) in parts.iter().enumerate() {
            if i > 0 {
                out.push(',');
            }
            out.push_str(&format!("\"{}\":", k));
            json::list(out, v.iter(), |o, s| range(o, at, s.as_bytes()));
        }
        out.push('}');
    }
    out.push('}');
}

/// [k, a, n, v]
fn item(out: &mut String, at: Place, k: &str, s: &[u8], v: impl FnOnce(&mut String)) {
    out.push_str(&format!("{{\"k\":\"{}\",", k));
    json::slice(out, at, s);
    key(out, "v");
    v(out);
    out.push('}');
}

fn none(out: &mut String) {
    out.push_str("[]")
}

#[allow(unreachable_patterns)]
pub fn purpose(p: &ExtendedKeyUsagePurpose) -> &'static str {
    match p {
        ExtendedKeyUsagePurpose::ServerAuth => "ServerAuth",
        ExtendedKeyUsagePurpose::ClientAuth => "ClientAuth",
        ExtendedKeyUsagePurpose::CodeSigning => "CodeSigning",
        ExtendedKeyUsagePurpose::EmailProtection => "EmailProtection",
        ExtendedKeyUsagePurpose::TimeStamping => "TimeStamping",
        ExtendedKeyUsagePurpose::OCSPSigning => "OCSPSigning",
        _ => "Other",
    }
}

#[allow(unreachable_patterns)]
pub fn extension(out: &mut String, at: Place, e: &Extension) {
    out.push_str("{\"oid\":");
    arcs(out, &e.extn_id);
    key(out, "crit");
    json::boolean(out, e.critical);
    key(out, "kind");
    let kind = match &e.content {
        SpecificExtension::SubjectKeyIdentifier(_) => "SubjectKeyIdentifier",
        SpecificExtension::KeyUsage(_) => "KeyUsage",
        SpecificExtension::SubjectAlternativeName(_) => "SubjectAlternativeName",
        SpecificExtension::BasicConstraints(_) => "BasicConstraints",
        SpecificExtension::ExtendedKeyUsage(_) => "ExtendedKeyUsage",
        SpecificExtension::ModbusRole(_) => "ModbusRole",
        SpecificExtension::Unknown(_) => "Unknown",
        _ => "Other",
    };
    out.push_str(&format!("\"{}\"", kind));
    key(out, "c");
    out.push('[');
    match &e.content {
        SpecificExtension::SubjectKeyIdentifier(x) => item(out, at, "ski", x.key_identifier, none),
        SpecificExtension::ModbusRole(x) => item(out, at, "role", x.role.as_bytes(), none),
        SpecificExtension::Unknown(x) => item(out, at, "raw", x, none),
        SpecificExtension::KeyUsage(x) => {
            let flags = [
                x.digital_signature,
                x.content_commitment,
                x.key_encipherment,
                x.data_encipherment,
                x.key_agreement,
                x.key_cert_sign,
                x.crl_sign,
                x.encipher_only,
                x.decipher_only,
            ];
            item(out, at, "flags", &[], |o| {
                json::list(o, flags.iter(), |o, b| json::int(o, *b as i64))
            })
        }
        SpecificExtension::BasicConstraints(x) => {
            item(out, at, "ca", &[], |o| o.push_str(if x.ca { "[1]" } else { "[0]" }));
            if let Some(n) = x.path_length_constraint {
                out.push(',');
                item(out, at, "len", &[], |o| o.push_str(&format!("[{}]", n)));
            }
        }
        SpecificExtension::SubjectAlternativeName(x) => {
            for (i, n) in x.names.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                match n {
                    GeneralName::Rfc822Name(s) => item(out, at, "mail", s.as_bytes(), none),
                    GeneralName::DnsName(s) => item(out, at, "dns", s.as_bytes(), none),
                    GeneralName::UniformResourceIdentifier(s) => {
                        item(out, at, "uri", s.as_bytes(), none)
                    }
                    GeneralName::IpAddress(s) => item(out, at, "ip", s, none),
                    GeneralName::RegisteredId(oid) => item(out, at, "rid", &[], |o| arcs(o, oid)),
                    GeneralName::OtherName(s) => item(out, at, "other", s, none),
                    GeneralName::X400Address => item(out, at, "x400", &[], none),
                    GeneralName::DirectoryName => item(out, at, "dir", &[], none),
                    GeneralName::EdiPartyName => item(out, at, "edi", &[], none),
                    _ => item(out, at, "new", &[], none),
                }
            }
        }
        SpecificExtension::ExtendedKeyUsage(x) => {
            for (i, p) in x.ext_key_usages.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                item(out, at, purpose(p), &[], none);
            }
        }
        _ => item(out, at, "other", &[], none),
    }
    out.push_str("]}");
}

pub fn extension_of(out: &mut String, at: Place, result: &Result<Vec<Extension>, ASNError>) {
    verdict(out, result);
    if let Ok(list) = result {
        key(out, "f");
        json::list(out, list.iter(), |o, e| extension(o, at, e));
    }
    out.push('}');
}

const NO_PRINT: &str = "{\"depth\":0,\"low\":0,\"rest\":0,\"l\":[]}";

/// the verdict on a certificate and, if it was accepted, its fields
pub fn outcome(out: &mut String, at: Place, result: &Result<Certificate, ASNError>) {
    out.push_str("{\"p\":0,\"cert\":");
    verdict(out, result);
    out.push('}');
    if let Ok(c) = result {
        key(out, "f");
        fields(out, at, c);
    }
}

#[allow(unreachable_patterns)]
pub fn fields(out: &mut String, at: Place, c: &Certificate) {
    let tbs = &c.tbs_certificate.value;
    out.push_str("{\"tbs\":");
    range(out, at, c.tbs_certificate.bytes);
    key(out, "ver");
    out.push_str(match tbs.version {
        Version::V1 => "\"V1\"",
        Version::V2 => "\"V2\"",
        Version::V3 => "\"V3\"",
        _ => "\"other\"",
    });
    key(out, "serial");
    int_val(out, at, &tbs.serial_number);
    key(out, "sigalg");
    alg(out, at, &tbs.signature);
    key(out, "issuer");
    range(out, at, tbs.issuer.inner);
    key(out, "nb");
    json::time(out, tbs.validity.not_before.value);
    key(out, "na");
    json::time(out, tbs.validity.not_after.value);
    key(out, "subject");
    range(out, at, tbs.subject.inner);
    key(out, "spkalg");
    alg(out, at, &tbs.subject_public_key_info.algorithm);
    key(out, "spkkey");
    bit_val(out, at, &tbs.subject_public_key_info.subject_public_key);
    key(out, "iuid");
    json::list(out, tbs.issuer_unique_id.iter(), |o, b| bit_val(o, at, b));
    key(out, "suid");
    json::list(out, tbs.subject_unique_id.iter(), |o, b| bit_val(o, at, b));
    key(out, "hasexts");
    json::int(out, tbs.extensions.is_some() as i64);
    key(out, "alg");
    alg(out, at, &c.signature_algorithm);
    key(out, "sig");
    bit_val(out, at, &c.signature_value);
    out.push('}');
}

/// the name inside the SEQUENCE with these contents
pub fn name_of(out: &mut String, at: Place, n: &Name) {
    name(out, at, &n.parse());
}

pub fn extensions_of(out: &mut String, at: Place, c: &Certificate) {
    match &c.tbs_certificate.value.extensions {
        None => out.push_str("{\"ok\":true,\"s\":[],\"f\":[]}"),
        Some(e) => extension_of(out, at, &e.parse()),
    }
}

/// something printable that is in a certificate
enum Part<'a> {
    Is(&'a dyn Printable),
    Name(Result<RelativeDistinguishedName<'a>, ASNError>),
    Extensions(Result<Vec<Extension<'a>>, ASNError>),
}

fn parts_of<'a>(c: &'a Certificate<'a>) -> Vec<Part<'a>> {
    let tbs = &c.tbs_certificate.value;
    let mut all = vec![
        Part::Is(tbs),
        Part::Is(&c.signature_algorithm),
        Part::Is(&c.signature_value),
        Part::Is(&tbs.signature),
        Part::Is(&tbs.issuer),
        Part::Is(&tbs.subject),
        Part::Name(tbs.issuer.parse()),
        Part::Name(tbs.subject.parse()),
        Part::Is(&tbs.validity),
        Part::Is(&tbs.subject_public_key_info),
        Part::Is(&tbs.subject_public_key_info.algorithm),
        Part::Is(&tbs.subject_public_key_info.subject_public_key),
    ];
    all.extend(tbs.issuer_unique_id.iter().map(|b| Part::Is(b)));
    all.extend(tbs.subject_unique_id.iter().map(|b| Part::Is(b)));
    all.extend(tbs.extensions.iter().map(|e| Part::Extensions(e.parse())));
    all
}

/// each of them is printed on its own, within none to three blocks
fn parts(out: &mut String, all: &[Part]) {
    let mut flat: Vec<&dyn Printable> = vec![];
    for part in all {
        match part {
            Part::Is(p) => flat.push(*p),
            Part::Name(n) => flat.extend(n.iter().map(|n| n as &dyn Printable)),
            Part::Extensions(list) => {
                for e in list.iter().flatten() {
                    flat.push(e);
                    flat.push(&e.content);
                }
            }
        }
    }
    key(out, "parts");
    json::list(out, flat.iter().enumerate(), |o, (i, p)| print::record_within(o, i as i64 % 4, *p));
}

pub fn run_cert(case: &Case, input: &[u8], at: Place, out: &mut String) {
    let result = Certificate::parse(input);
    outcome(out, at, &result);
    if let Ok(c) = &result {
        let tbs = &c.tbs_certificate.value;
        key(out, "iname");
        name_of(out, at, &tbs.issuer);
        key(out, "sname");
        name_of(out, at, &tbs.subject);
        key(out, "elist");
        extensions_of(out, at, c);
        key(out, "print");
        if case.printing {
            print::record(out, c);
        } else {
            out.push_str(NO_PRINT);
        }
        if case.parts {
            parts(out, &parts_of(c));
        }
    }
    out.push('}');
}

pub fn run_name(case: &Case, input: &[u8], at: Place, out: &mut String) {
    let n = base::name(input);
    let result = n.parse();
    out.push_str("{\"p\":0,\"iname\":");
    name(out, at, &result);
    key(out, "print");
    match &result {
        _ if !case.printing => out.push_str(NO_PRINT),
        Ok(r) => print::record(out, r),
        Err(_) => print::record(out, &n),
    }
    if case.parts {
        let mut all = vec![Part::Is(&n)];
        if let Ok(r) = &result {
            all.push(Part::Is(r));
        }
        parts(out, &all);
    }
    out.push('}');
}

pub fn run_ext(case: &Case, input: &[u8], at: Place, out: &mut String) {
    let result = Extension::parse(input).map(|e| vec![e]);
    out.push_str("{\"p\":0,\"ext\":");
    extension_of(out, at, &result);
    key(out, "print");
    match &result {
        Ok(list) if case.printing => print::record(out, &list[0]),
        _ => out.push_str(NO_PRINT),
    }
    if case.parts {
        let mut all = vec![];
        for e in result.iter().flatten() {
            all.push(Part::Is(e));
            all.push(Part::Is(&e.content));
        }
        parts(out, &all);
    }
    out.push('}');
}

/// extra: not before, not after, now as three pairs of days and seconds; the input is not used
/// unless it is a certificate, whose validity is then used instead of the first two.
pub fn run_valid(case: &Case, input: &[u8], out: &mut String) {
    let n: Vec<u64> = case.extra.iter().map(|s| s.parse().expect("extra")).collect();
    let t = |i: usize| UtcTime::from_seconds_since_epoch(n[2 * i] * 86400 + n[2 * i + 1]);
    let cert;
    let validity = if input.is_empty() {
        let mut v = base::validity();
        v.not_before = t(0);
        v.not_after = t(1);
        v
    } else {
        cert = Certificate::parse(input);
        match cert {
            Ok(c) => c.tbs_certificate.value.validity,
            Err(_) => {
                out.push_str("{\"p\":0,\"ok\":false,\"is\":false}");
                return;
            }
        }
    };
    out.push_str("{\"p\":0,\"ok\":true,\"is\":");
    json::boolean(out, validity.is_valid(t(2)));
    out.push('}');
}
