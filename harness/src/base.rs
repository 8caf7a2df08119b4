//! Values to begin with, whose public fields are then set.  They are decoded, not written as
//! literals, so that it does not matter which other fields there are.

use rx509::x509::ext::*;
use rx509::x509::*;

#[rustfmt::skip]
const CERTIFICATE: &[u8] = &[
    48, 103, 48, 90, 160, 3, 2, 1, 2, 2, 1, 5, 48, 5, 6, 3, 43, 101, 112, 48, 13, 49, 11, 48,
    9, 6, 3, 85, 4, 3, 12, 2, 99, 97, 48, 30, 23, 13, 50, 48, 48, 49, 48, 49, 48, 48, 48, 48,
    48, 48, 90, 23, 13, 51, 48, 48, 49, 48, 49, 48, 48, 48, 48, 48, 48, 90, 48, 13, 49, 11, 48, 9,
    6, 3, 85, 4, 3, 12, 2, 109, 101, 48, 11, 48, 5, 6, 3, 43, 101, 112, 3, 2, 0, 1, 48, 5,
    6, 3, 43, 101, 112, 3, 2, 0, 2,
];
#[rustfmt::skip]
const KEY_ID: &[u8] = &[
    6, 3, 85, 29, 14, 4, 3, 4, 1, 1,
];
#[rustfmt::skip]
const KEY_USAGE: &[u8] = &[
    6, 3, 85, 29, 15, 4, 4, 3, 2, 0, 128,
];
#[rustfmt::skip]
const NAMES: &[u8] = &[
    6, 3, 85, 29, 17, 4, 5, 48, 3, 130, 1, 97,
];
#[rustfmt::skip]
const CONSTRAINTS: &[u8] = &[
    6, 3, 85, 29, 19, 4, 5, 48, 3, 1, 1, 255,
];
#[rustfmt::skip]
const PURPOSES: &[u8] = &[
    6, 3, 85, 29, 37, 4, 12, 48, 10, 6, 8, 43, 6, 1, 5, 5, 7, 3, 1,
];
#[rustfmt::skip]
const ROLE: &[u8] = &[
    6, 11, 43, 6, 1, 4, 1, 131, 137, 12, 134, 34, 1, 4, 3, 12, 1, 97,
];

fn tbs<'a>() -> TBSCertificate<'a> {
    let octets: &'a [u8] = CERTIFICATE;
    Certificate::parse(octets).expect("base").tbs_certificate.value
}

pub fn name<'a>(inner: &'a [u8]) -> Name<'a> {
    let mut n = tbs::<'a>().issuer;
    n.inner = inner;
    n
}

pub fn validity() -> Validity {
    tbs().validity
}

pub fn key<'a>() -> SubjectPublicKeyInfo<'a> {
    tbs::<'a>().subject_public_key_info
}

fn content<'a>(octets: &'a [u8]) -> SpecificExtension<'a> {
    Extension::parse(octets).expect("base").content
}

pub fn key_identifier<'a>() -> SubjectKeyIdentifier<'a> {
    match content(KEY_ID) {
        SpecificExtension::SubjectKeyIdentifier(x) => x,
        _ => panic!("base"),
    }
}
pub fn key_usage() -> KeyUsage {
    match content(KEY_USAGE) {
        SpecificExtension::KeyUsage(x) => x,
        _ => panic!("base"),
    }
}
pub fn names<'a>() -> SubjectAlternativeName<'a> {
    match content(NAMES) {
        SpecificExtension::SubjectAlternativeName(x) => x,
        _ => panic!("base"),
    }
}
pub fn constraints() -> BasicConstraints {
    match content(CONSTRAINTS) {
        SpecificExtension::BasicConstraints(x) => x,
        _ => panic!("base"),
    }
}
pub fn purposes() -> ExtendedKeyUsage {
    match content(PURPOSES) {
        SpecificExtension::ExtendedKeyUsage(x) => x,
        _ => panic!("base"),
    }
}
pub fn role<'a>() -> ModbusRole<'a> {
    match content(ROLE) {
        SpecificExtension::ModbusRole(x) => x,
        _ => panic!("base"),
    }
}
