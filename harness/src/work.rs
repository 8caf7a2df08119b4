//! The processor time that decoding and showing a large input takes.
//!   extra: shape and size, see Work.tla
//! The record: whether everything was decoded, how many things were found, microseconds.

use crate::json;
use crate::Case;
use rx509::der::*;
use rx509::x509::ext::{Extension, SpecificExtension};
use rx509::x509::printer::{LinePrinter, Printable};
use rx509::x509::{Certificate, RelativeDistinguishedName};
use std::fmt::Write;

extern "C" {
    fn clock_gettime(clock: i32, time: *mut [i64; 2]) -> i32;
}

fn microseconds() -> i64 {
    let mut t = [0i64; 2];
    // 3: the processor time of this thread
    assert_eq!(unsafe { clock_gettime(3, &mut t) }, 0);
    t[0] * 1_000_000 + t[1] / 1000
}

/// Takes text and forgets it.
#[derive(Default)]
struct Sink(usize);
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}
impl LinePrinter for Sink {
    fn begin_type(&mut self) {}
    fn begin_line(&mut self) {}
    fn end_type(&mut self) {}
    fn print_fmt(&mut self, fmt: &core::fmt::Arguments) {
        write!(self, "{}", fmt).unwrap();
    }
    fn print_str(&mut self, s: &str) {
        self.0 += s.len();
    }
    fn println_fmt(&mut self, fmt: &core::fmt::Arguments) {
        write!(self, "{}", fmt).unwrap();
    }
    fn println_str(&mut self, s: &str) {
        self.0 += s.len();
    }
}

#[derive(Default)]
struct Callbacks {
    count: usize,
    text: Sink,
}
impl ParseHandler for Callbacks {
    fn begin_constructed(&mut self) {
        self.count += 1;
    }
    fn end_constructed(&mut self) {
        self.count += 1;
    }
    fn on_type(&mut self, asn: &ASNType) {
        self.count += 1;
        write!(self.text, "{}", asn).unwrap();
        if let ASNType::BitString(w) = asn {
            self.text.0 += w.value.iter().filter(|b| *b).count();
        }
    }
    fn on_error(&mut self, err: &ASNError) {
        self.count += 1;
        write!(self.text, "{}", err).unwrap();
    }
}

fn captured(n: &RelativeDistinguishedName) -> usize {
    [
        n.country_name,
        n.state_or_province_unit_name,
        n.locality_name,
        n.organization,
        n.organizational_unit_name,
        n.common_name,
    ]
    .iter()
    .flatten()
    .count()
}

fn work(kind: &str, input: &[u8]) -> (bool, usize) {
    let mut sink = Sink::default();
    match kind {
        "der" => {
            let mut c = Callbacks::default();
            let ok = parse_all(input, &mut c).is_ok();
            (ok, c.count)
        }
        "cert" => match Certificate::parse(input) {
            Err(_) => (false, 0),
            Ok(c) => {
                let tbs = &c.tbs_certificate.value;
                let names = tbs.issuer.parse().is_ok() & tbs.subject.parse().is_ok();
                let found = match &tbs.extensions {
                    None => Some(0),
                    Some(e) => e.parse().ok().map(|list| list.len()),
                };
                c.print(&mut sink);
                (names && found.is_some(), found.unwrap_or(0))
            }
        },
        "name" => {
            let name = crate::base::name(input);
            name.print(&mut sink);
            let result = match name.parse() {
                Err(err) => {
                    write!(sink, "{}", err).unwrap();
                    (false, 0)
                }
                Ok(n) => {
                    n.print(&mut sink);
                    (true, captured(&n))
                }
            };
            result
        }
        _ => match Extension::parse(input) {
            Err(err) => {
                write!(sink, "{}", err).unwrap();
                (false, 0)
            }
            Ok(e) => {
                e.print(&mut sink);
                let items = match &e.content {
                    SpecificExtension::SubjectAlternativeName(s) => s.names.len(),
                    SpecificExtension::ExtendedKeyUsage(u) => u.ext_key_usages.len(),
                    _ => 0,
                };
                (true, items)
            }
        },
    }
}

pub fn run(case: &Case, input: &[u8], out: &mut String) {
    let kind = match case.extra[0].parse::<u32>().expect("extra") {
        0..=14 => "der",
        21 | 22 | 28 | 34 => "cert",
        25 | 26 | 30 | 31 | 40 => "name",
        _ => "ext",
    };
    let start = microseconds();
    let (ok, items) = work(kind, input);
    let us = microseconds() - start;
    out.push_str("{\"p\":0,\"ok\":");
    json::boolean(out, ok);
    out.push_str(&format!(",\"items\":{},\"n\":{},\"us\":", items, input.len()));
    json::int(out, us);
    out.push('}');
}
